"""setup_cmd: nothing is prebuilt (every check builds its driver from /repo's tree); only says what is missing."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
bad = [t for t in ("java", "g++") if not shutil.which(t)] + [p for p in ("/opt/veriftools/tla/tla2tools.jar", "/usr/include/eigen3/Eigen/Core") if not os.path.exists(p)]
print("missing: %s" % bad if bad else "ready")
sys.exit(1 if bad else 0)
