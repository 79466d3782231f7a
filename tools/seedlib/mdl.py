"""Minimal ctypes access to the built library (cwd is /repo)."""
import ctypes as C, os, tempfile, sys, atexit, shutil, math
L = C.CDLL(os.path.abspath("_build/source/libmoordyn.so"))
for n in ("Create", "GetLine", "GetPoint", "GetRod", "GetBody", "GetSeafloor", "GetWaves"):
    getattr(L, "MoorDyn_" + n).restype = C.c_void_p
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
N = [0]
LT = "chain 0.12 45.0 2.0e6 -0.6 0 1.3 0.9 0.3 0.2"
OPT = "0.004 dtM\n30 WtrDpth\n3e4 kBot\n3e3 cBot\n0 TmaxIC\n0.1 dtIC\n4 CdScaleIC\n0.01 threshIC\n0 writeLog\n"


def sec(title, rows, n=2):
    if not rows:
        return ""
    return "---- %s ----\n" % title + "header\n" * n + "\n".join(rows) + "\n"


def text(points=(), lines=(), linetypes=(LT,), rodtypes=(), bodies=(), rods=(), options="", outputs=()):
    return ("MoorDyn input\ntest\n" + sec("LINE TYPES", linetypes) + sec("ROD TYPES", rodtypes)
            + sec("BODIES", bodies) + sec("RODS", rods) + sec("POINTS", points)
            + sec("LINES", lines) + "---- OPTIONS ----\n" + OPT + options
            + ("---- OUTPUTS ----\n" + "\n".join(outputs) + "\n" if outputs else "") + "---- END ----\n")


def da(v):
    return (C.c_double * max(1, len(v)))(*v)


class Sys:
    def __init__(self, txt, files=None):
        N[0] += 1
        self.dir = os.path.join(D, "s%d" % N[0])
        os.mkdir(self.dir)
        p = os.path.join(self.dir, "m.txt")
        open(p, "w").write(txt)
        for k, v in (files or {}).items():
            open(os.path.join(self.dir, k), "w").write(v)
        h = L.MoorDyn_Create(p.encode())
        assert h, "create failed"
        self.h = C.c_void_p(h)
        L.MoorDyn_SetVerbosity(self.h, 4)
        n = C.c_uint()
        L.MoorDyn_NCoupledDOF(self.h, C.byref(n))
        self.n = n.value
        self.t = C.c_double(0)

    def init(self, x, xd=None, ic=False):
        f = L.MoorDyn_Init if ic else L.MoorDyn_Init_NoIC
        return f(self.h, da(x), da(xd or [0] * len(x)))

    def step(self, x, xd, dt):
        f = da([0] * (len(x) + 24))
        d = C.c_double(dt)
        e = L.MoorDyn_Step(self.h, da(x), da(xd), f, C.byref(self.t), C.byref(d))
        assert e == 0, "step returned %d" % e
        return list(f)[:len(x)]

    def obj(self, kind, i):
        return C.c_void_p(getattr(L, "MoorDyn_Get" + kind)(self.h, i))

    def vec(self, kind, i, what, *a, n=3):
        v = da([0] * n)
        e = getattr(L, "MoorDyn_Get%s%s" % (kind, what))(self.obj(kind, i), *a, v)
        assert e == 0, e
        return list(v)

    def node(self, kind, i, j, what="Pos"):
        v = da([0] * 3)
        e = getattr(L, "MoorDyn_Get%sNode%s" % (kind, what))(self.obj(kind, i), j, v)
        assert e == 0, e
        return list(v)

    def close(self):
        L.MoorDyn_Close(self.h)


def near(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b)) and len(a) == len(b)


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)
