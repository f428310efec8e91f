from vlib import *
LIB = ["ecl_type_traits/src/lib/*.cpp"]


def run(k):
    exe, tr8 = k.builds([("maths", LIB, {}), ("traits", LIB + ["ecl_exceptions/src/lib/*.cpp"], {})])
    w = lambda op, names: "{" + ", ".join('<<"%s", "%s">>' % (op, n) for n in names.split()) + "}"
    I = "char uchar short ushort int uint long ulong llong ullong"; O = " bool float char* class"
    e = k.mc("TraitS", "", cmds=" \\cup ".join([w("bytes", I + O + " schar wchar enum string"), w("device", "String OFile SharedFile OConsole EConsole IConsole Serial SocketClient SocketServer int" + O + " enum string wchar"), w("float", "float double ldouble"), w("precision", I), w("unsigned", I + O),
        '{<<o, b>> : o \\in {"if", "enable", "bool"}, b \\in {0, 1}}', '{<<"failed", "x">>, <<"void", "x">>, <<"sizes", "x">>}']), tag="traits")
    k.replay(tr8, e, "bytes, devices, floating point types and helpers", maxlen=200)
    T = [("char", 1, 1), ("uchar", 1, 0), ("short", 2, 1), ("ushort", 2, 0), ("int", 4, 1), ("uint", 4, 0), ("long", 8, 1), ("ulong", 8, 0), ("llong", 8, 1), ("ullong", 8, 0)]
    lim = "{" + ", ".join('<<"limits", "%s", %d, %d>>' % t for t in T) + "}"
    tr = ['<<"traits", "%s", 1, %d, %d, 0>>' % (n, s, 1 - s) for n, _, s in T] + ['<<"traits", "%s", 0, 0, 0, 1>>' % n for n in ("float", "double", "ldouble")] + ['<<"traits", "%s", 0, 0, 0, 0>>' % n for n in ("class", "bool*")]
    edges = k.mc("MathS", "", cmds=lim + " \\cup {" + ", ".join(tr) + "}")
    k.replay(exe, edges, "every fundamental type", maxlen=200)
