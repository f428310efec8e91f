#!/usr/bin/env python3
"""check.py <property id> : decides one property of properties.jsonl against the current tree of /repo."""
import importlib.util, os, sys, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    k = vlib.Check(pid)
    try:
        spec = importlib.util.spec_from_file_location(pid, os.path.join(HERE, "checks", pid + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.run(k)
        return k.finish()
    except vlib.Broken as e:
        if k.violations:            # something was shown to be wrong before the machinery gave up
            print("note: check incomplete: %s" % str(e)[:500])
            return k.finish()
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        if k.violations:
            return k.finish()
        return 2
    finally:
        shutil.rmtree(k.work, ignore_errors=True)


sys.exit(main())
