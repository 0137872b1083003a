"""Variable-step, variable-order Adams (C15)."""
import os
from lib import *
from props_rk import OBJ, has, nohas
from props_law import law_check
from props_sympl import decimals

def adaptive_check(c, plan, orders, what, expect=()):
    """plan: [(kind, number, filter on the history, resizers)]"""
    r, lines = c.rng, []
    gen = c.generate("GenOps", os.path.join(c.dir, "ops_ad.json"), consts=dict(MaxLen=3))
    gdec = decimals(c)
    for kind, n, flt, rzs in plan:
        H = gen["adaptive" if kind == "plain" else "adaptivectl"]
        letters = sorted({l for h in H for l in h}); steps = ["i", "i", "o", "e"] if kind == "plain" else ["i:y+", "i:y+", "o:y+", "i:y-", "i:y=", "i:n", "o:n"]
        H = [h for h in H if flt(h)]
        if c.thorough: n *= 10
        H = r.sample(H, min(n, len(H)))
        for _ in range(n // 3):
            for _try in range(50):
                h = [r.choice(letters) for _ in range(r.randrange(4, 10))]
                if flt(h): break
            H.append(h)
        for k, h in enumerate(H):
            rz = rzs[k % len(rzs)]; st = "arr" if rz == "initially" and r.random() < 0.3 else "vec"
            # some steps between the calls, so that histories get long
            g = [r.choice(steps) for _ in range(r.randrange(0, 5))]
            for l in h: g += [l] + [r.choice(steps) for _ in range(r.choice([0, 0, 1, 2, 4]))]
            lines.append(" ".join([kind, str(r.choice(orders)), st, rz, str(3 if st == "arr" else r.choice([1, 1, 2, 3])), str(r.randrange(1, 10**6))] + g))
    exes = c.compile({"adaptive%d" % n: ("adaptive.cpp", ["-DORDN=%d" % n]) for n in orders})
    sc = os.path.join(c.dir, "adscen.txt"); open(sc, "w").write("\n".join(lines) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, "adaptive.ndjson" + suf)
        with open(t, "w") as f:
            for n in orders:
                c.run(exes["adaptive%d" % n], sc, t + ".part", gdec); f.write(open(t + ".part").read()); os.remove(t + ".part")
        return t
    c.validate("TraceAdaptive", record(), rerun=lambda: record(".again"), what=what, expect=expect)

RZ = ["initially", "always"]
def C15(c):
    c.model("MCAdaptive", cfg="MCAdaptiveDeep" if c.thorough else None)
    adaptive_check(c, [("plain", 350, lambda h: True, RZ), ("ctl", 500, lambda h: True, RZ)], [1, 2, 3, 4, 5, 7] + ([6, 8] if c.thorough else []),
                   "variable-step Adams steps (exact field)", ['"with"', '"ictl"', '"init"', '"tried",true', '"tried",false', '"ord"', '"n":7'])
    law_check(c, "order", 1500, "order choice of the controlled variable-step Adams", ['"order"'])
def adaptive_C22(c):
    adaptive_check(c, [("plain", 100, has("z"), RZ[1:]), ("ctl", 100, has("z"), RZ[1:])], [3, 5], "changes of dimension in variable-step Adams")
def adaptive_C23(c):
    adaptive_check(c, [("plain", 120, has("c", "k", "N"), RZ), ("ctl", 120, has("c", "k", "N"), RZ)], [3, 5], "copies of variable-step Adams", ['"copy"', '"drop"'])
def adaptive_C07(c):
    adaptive_check(c, [("ctl", 150, nohas(*OBJ), RZ)], [3, 5], "attempts of the controlled variable-step Adams", ['"tried",true', '"tried",false'])
