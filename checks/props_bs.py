"""Bulirsch-Stoer steppers (C16, C17)."""
import os
from lib import *
from props_rk import OBJ, has, nohas

def bs_check(c, plan, what, expect=()):
    """plan: [(kind, number, filter on the history, resizers)]"""
    r, lines = c.rng, []
    gen = c.generate("GenOps", os.path.join(c.dir, "ops_bs.json"), consts=dict(MaxLen=3))
    for kind, n, flt, rzs in plan:
        H = gen["bs" if kind == "ctl" else "bsdense"]
        letters = sorted({l for h in H for l in h})
        H = [h for h in H if flt(h)]
        if c.thorough: n *= 10
        H = r.sample(H, min(n, len(H)))
        for _ in range(n // 5):
            for _try in range(50):
                h = [r.choice(letters) for _ in range(r.randrange(4, 9))]
                if flt(h): break
            H.append(h)
        def script(h):      # further verdicts at random
            return [l if l[0] not in "ios" or r.random() < 0.6 else l.split(":")[0] + ":" + "".join(r.choice("nnnnyx" if l[0] in "io" else "nnnnnyyx") for _ in range(r.randrange(1, 14))) for l in h]
        for k, h in enumerate(H):
            rz = rzs[k % len(rzs)]; st = "arr" if rz == "initially" and r.random() < 0.3 else "vec"
            lines.append(" ".join([kind, st, rz, str(3 if st == "arr" else r.choice([1, 1, 2, 3])), str(r.randrange(1, 10**6)), str(r.choice([0, 0, 0, 20000, 5])),
                                   str(r.choice([0, 1]))] + script(h) + (["i:nnny", "o"] if kind == "ctl" else ["s:nny", "C", "L", "H"])))
        # climbs to the last permitted stage, with the other letters of this plan in between
        pool = [l for l in letters if l[0] not in "iosSG"]
        for k in range(max(16, n // 8)):
            deep = lambda: "n" * r.choice([3, 4, 5, 5, 6, 6, 7, 7, 8, 8]) + "y"
            climb = lambda m: ["iK:nnnny" if kind == "ctl" else "s:nnnny"] + [(r.choice(["iK:", "oK:"]) if kind == "ctl" else "s:") + deep() for _ in range(m)]
            for _try in range(30):
                h = climb(r.randrange(3, 8)) + r.sample(pool, min(len(pool), r.randrange(3))) + climb(r.randrange(2, 6))
                if flt(h): break
            if flt(h): lines.append(" ".join([kind, "vec", rzs[k % len(rzs)], str(r.choice([1, 2])), str(r.randrange(1, 10**6)), "0", str(r.choice([0, 1]))] + h))
        if kind == "dense":
            for k in range(3): lines.append("dense vec always 1 %d 0 %d s:ny G" % (k + 1, k % 2))
    exe = c.compile({"bs": ("bs.cpp", [])})["bs"]
    sc = os.path.join(c.dir, "bsscen.txt"); open(sc, "w").write("\n".join(lines) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, "bs.ndjson" + suf); c.run(exe, sc, t); return t
    c.validate("TraceBulirsch", record(), rerun=lambda: record(".again"), what=what, expect=expect)

def control(c, n, what, kind, expect=()):
    exe = c.compile({"bslaw": ("bslaw.cpp", [])})["bslaw"]
    if c.thorough: n *= 12
    def record(suf=""):
        t = os.path.join(c.dir, "bslaw.ndjson" + suf); c.run(exe, c.seed, n, t, kind); return t
    c.validate("TraceExtrapolation", record(), rerun=lambda: record(".again"), what=what, expect=expect)

RZ = ["initially", "always", "never"]
f = nohas("k", "d", "N")
def C16(c):
    c.model("MCBulirsch")
    c.model("MCExtrapolation")
    bs_check(c, [("ctl", 500, lambda h: True, RZ)], "controlled Bulirsch-Stoer steps (exact field)", ['"done",true', '"done",false', '"refused"', '"other"', '"reset"'])
    control(c, 1600, "order and step-size control of bulirsch_stoer", "bs", ['"refused"', '"anew"', '"back":true', '"back":false', ',8,true,', 'true,false,-99000000'])
def C17(c):
    c.model("MCBulirsch", cfg="MCBulirschD")
    c.model("MCExtrapolation", cfg="MCExtrapolationD")
    if c.thorough: c.model("MCExtrapolation", cfg="MCExtrapolationI")
    bs_check(c, [("dense", 450, f, RZ)], "dense output of Bulirsch-Stoer (exact field)", ['"dret"', '"calc"', '"gaveup"'])
    control(c, 1600, "order and step-size control of bulirsch_stoer_dense_out", "dense", ['"refused"', '"anew"', '"back":true', '"back":false', '"ci":true'])
def bs_C07(c):
    bs_check(c, [("ctl", 120, nohas(*OBJ), RZ)], "attempts of bulirsch_stoer", ['"done",true', '"done",false'])
def bs_C09(c):
    bs_check(c, [("dense", 120, has("I", "J", "K"), RZ)], "derivatives carried over by bulirsch_stoer_dense_out", ['"init"'])
def bs_C22(c):
    bs_check(c, [("ctl", 100, has("z"), RZ[1:]), ("dense", 80, has("z"), RZ[1:])], "changes of dimension in Bulirsch-Stoer steppers", ['"size"', '"redim"'])
def bs_C23(c):
    bs_check(c, [("ctl", 100, has("c", "N"), RZ), ("dense", 120, has("c", "k", "N"), RZ)], "copies of Bulirsch-Stoer steppers", ['"copy"', '"drop"'])
    control(c, 300, "control state of copies", "both", ['"copy"'])
