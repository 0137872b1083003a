"""Symplectic steppers and velocity Verlet (C21)."""
import os
from lib import *
from props_rk import ALL, OBJ, has, nohas, anyv, sizable

def decimals(c):
    p = os.path.join(c.dir, "decimals.txt")
    with open(p, "w") as f:
        for d in c.generate("GenDecimals", os.path.join(c.dir, "dec.json")):
            f.write("%d.%s %d\n" % (d["int"], "".join("%04d" % g for g in d["groups"]), d["value"]))
    return p

def sympl_check(c, plan, what, expect=()):
    """plan: [(scheme, number, filter, variant filter)]"""
    r = c.rng
    gen = c.generate("GenOps", os.path.join(c.dir, "ops_s.json"), consts=dict(MaxLen=4 if c.thorough else 3))
    lines = []
    for scheme, n, flt, vflt in plan:
        H = [h for h in gen["verlet" if scheme == "verlet" else "sympl"] if flt(h)]
        letters = sorted({l for h in H for l in h})
        if c.thorough: n *= 12
        H = r.sample(H, min(n, len(H)))
        for _ in range(n // 5):
            for _try in range(50):
                h = [r.choice(letters) for _ in range(r.randrange(5, 13))]
                if flt(h): break
            H.append(h)
        V = [v for v in ALL if vflt(v)]
        for k, h in enumerate(H):
            st, rz = V[k % len(V)]
            dim = 3 if st == "arr" else r.choice([1, 2, 2, 3, 4])
            lines.append(" ".join([scheme, st, rz, str(dim), str(r.randrange(1, 10**6))] + h + ["i", "w", "o", "i"]))
    exe = c.compile({"sympl": ("sympl.cpp", [])})["sympl"]
    dec = decimals(c); sc = os.path.join(c.dir, "sympl.txt"); open(sc, "w").write("\n".join(lines) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, "sympl.ndjson" + suf); c.run(exe, dec, sc, t); return t
    c.validate("TraceSymplectic", record(), rerun=lambda: record(".again"), what=what, expect=expect)

SY = ("euler", "m4", "sb3a")
def C21(c):
    c.model("MCSymCoef", workers=4)
    for s in ("verlet",) + SY:
        c.model("MCSymplectic", consts=dict(Scheme='"%s"' % s, MaxOps=(6 if s == "verlet" else 5 if s == "euler" else 4) if c.thorough else (5 if s == "verlet" else 4 if s == "euler" else 3)))
    f = lambda h: True
    sympl_check(c, [(s, 250, nohas(*OBJ), anyv) for s in SY] + [("verlet", 900, f, anyv)], "steps of symplectic steppers and velocity Verlet",
                ['"pair"', '"force"', '"o"', '"vel"', '"inits"', '"initd"', '"vdone"', '"reset"'])
def sympl_C22(c): sympl_check(c, [(s, 80, has("z"), sizable) for s in SY] + [("verlet", 200, has("z"), sizable)], "changes of dimension in symplectic steppers", ['"size"', '"redim"'])
def sympl_C23(c): sympl_check(c, [(s, 80, has("c", "k", "N"), anyv) for s in SY] + [("verlet", 300, has("c", "k", "N"), anyv)], "copies of symplectic steppers", ['"copy"', '"drop"'])
def sympl_C09(c): sympl_check(c, [("verlet", 500, f_all, anyv)], "velocity Verlet: the acceleration carried over", ['"inits"', '"initd"', '"reset"'])
f_all = lambda h: True
