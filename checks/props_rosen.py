"""Implicit methods: Rosenbrock stepper, controller and dense output (C19)."""
import os
from lib import *
from props_rk import OBJ, has, nohas
from props_law import law_check
from props_sympl import decimals

def rosen_check(c, plan, what, expect=()):
    """plan: [(kind, number, filter on the history, resizers)]"""
    r, lines = c.rng, []
    gen = c.generate("GenOps", os.path.join(c.dir, "ops.json"), consts=dict(MaxLen=4) if c.thorough else dict(MaxLen=3))
    gdec = decimals(c)
    for kind, n, flt, rzs in plan:
        H = gen["rosen" if kind == "step" else "dense"]
        letters = sorted({l for h in H for l in h})
        H = [h for h in H if flt(h)]
        if c.thorough: n *= 12
        H = r.sample(H, min(n, len(H)))
        for _ in range(n // 6):
            for _try in range(50):
                h = [r.choice(letters) for _ in range(r.randrange(5, 12))]
                if flt(h): break
            H.append(h)
        for k, h in enumerate(H):
            lines.append(" ".join([kind, rzs[k % len(rzs)], str(r.choice([1, 2, 2, 3, 4])), str(r.randrange(1, 10**6))] + h +
                                  (["i", "w", "oe"] if kind == "step" else ["s:y", "C", "L", "H", "w", "s:ny", "C"])))
        if kind == "dense":
            for k in range(4): lines.append("dense always 1 %d s:y G" % (k + 1))
            for k in (497, 498, 499): lines.append("dense always 1 %d s:y s:%sy s:%sy C" % (k, "n" * k, "n" * 400))
    exe = c.compile({"rosen": ("rosen.cpp", [])})["rosen"]
    sc = os.path.join(c.dir, "roscen.txt"); open(sc, "w").write("\n".join(lines) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, "rosen.ndjson" + suf); c.run(exe, gdec, sc, t); return t
    c.validate("TraceRosenbrock", record(), rerun=lambda: record(".again"), what=what, expect=expect)

RZ = ["initially", "always", "never"]
f = nohas("k", "d", "N")
def C19(c):
    c.model("MCRosenbrock")
    rosen_check(c, [("step", 500, nohas(*OBJ), RZ), ("dense", 900, f, RZ)], "Rosenbrock steps and dense output",
                expect=['"jac"', '"done"', '"calc"', '"ver",false', '"dret"', '"dcalc"', '"gaveup"'])
    law_check(c, "ros", 600, "Rosenbrock controller with scripted errors", ['"ros"', '"rerr"', '"last"', '"a":1000'])
def rosen_C22(c):
    rosen_check(c, [("step", 200, has("z"), RZ[1:]), ("dense", 300, has("z"), RZ[1:])], "changes of dimension in Rosenbrock steppers", expect=['"size"', '"redim"'])
def rosen_C23(c):
    rosen_check(c, [("step", 200, has("c", "N"), RZ), ("dense", 400, has("c", "k", "N"), RZ)], "copies of Rosenbrock steppers", expect=['"copy"', '"drop"'])

def impl_check(c, n, flt, rzs, doubles, what, expect=()):
    r, lines = c.rng, []
    gen = c.generate("GenOps", os.path.join(c.dir, "ops_i.json"), consts=dict(MaxLen=4) if c.thorough else dict(MaxLen=3))
    H = [h for h in gen["implicit"] if flt(h)]
    if c.thorough: n *= 10; doubles *= 10
    for k, h in enumerate(r.sample(H, min(n, len(H)))):
        lines.append(" ".join([rzs[k % len(rzs)], str(r.choice([1, 2, 3, 3, 4])), str(r.randrange(1, 10**6))] + h + ["i:2", "w", "i:1", "i:3"]))
    exe = c.compile({"implicit": ("implicit.cpp", [])})["implicit"]
    sc = os.path.join(c.dir, "iescen.txt"); open(sc, "w").write("\n".join(lines) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, "implicit.ndjson" + suf); c.run(exe, sc, t, c.seed, doubles); return t
    c.validate("TraceImplicit", record(), rerun=lambda: record(".again"), what=what, expect=expect)
def C20(c):
    impl_check(c, 1200, lambda h: True, RZ, 1500, "implicit Euler steps (exact field; double precision residuals)", ['"jac"', '"done"', '"solved"', '"lin":true', '"lin":false'])
def impl_C22(c): impl_check(c, 250, has("z"), RZ[1:], 0, "changes of dimension in implicit Euler", ['"size"', '"redim"'])
def impl_C23(c): impl_check(c, 250, has("c", "N"), RZ, 0, "copies of implicit Euler", ['"copy"', '"drop"'])
