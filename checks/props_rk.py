"""Explicit Runge-Kutta steppers, their controllers and dense output (C07, C09, C10, C12, C22, C23)."""
import os, json, itertools
from lib import *

PART = {"euler": 0, "gen4": 0, "gene5": 0, "genea5": 0, "rk4": 1, "rk4c": 1, "ck54": 2, "ck54c": 3, "dopri5": 4, "f78": 5,
        "extr4": 7, "extr6": 7, "extr8": 8, "extr10": 8}
MP = ["mp%d" % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 12)]
PART.update({m: 6 for m in MP})
ALL = [("vec", "initially"), ("vec", "always"), ("vec", "never"), ("arr", "initially")]
VARIANTS = {"gen4": [("vec", "initially")], "gene5": [("vec", "always")], "genea5": [("arr", "initially")]}
TAIL = {"step": ["i", "w", "o"], "ctl": ["i:y", "w", "i:n", "i:y"], "dense": ["s:y", "C", "w", "s:y", "C"], "mid": ["i", "i"]}
def alphabet(kind, scheme):
    if kind == "mid": return "mid"
    if kind == "dense": return "denseplain" if scheme == "euler" else "dense"
    f = scheme == "dopri5"
    if kind == "ctl": return "ctlfsal" if f else "ctl"
    if f: return "fsal"
    return "plain" if scheme in ("euler", "rk4", "rk4c", "gen4") or scheme[:2] == "mp" else "err"

def rk_check(c, plan, what, model=(), expect=()):
    """plan: [(kind, scheme, number of histories, filter on the history, variant filter)]"""
    r = c.rng
    gen = c.generate("GenOps", os.path.join(c.dir, "ops.json"), consts=dict(MaxLen=4) if c.thorough else dict(MaxLen=3))
    gen["mid"] = [list(h) for k in range(1, 5) for h in itertools.product(["i", "z"], repeat=k)]
    lines, total = {}, 0
    for kind, scheme, n, flt, vflt in plan:
        H = gen[alphabet(kind, scheme)]
        letters = sorted({l for h in H for l in h})
        H = [h for h in H if flt(h)]
        total += len(H)
        if c.thorough: n *= 12
        H = r.sample(H, min(n, len(H)))
        for _ in range(n // 6):                                    # longer ones
            for _try in range(50):
                h = [r.choice(letters) for _ in range(r.randrange(5, 14))]
                if flt(h): break
            H.append(h)
        V = [v for v in VARIANTS.get(scheme, ALL) if vflt(v)]
        for k, h in enumerate(H):
            st, rz = V[k % len(V)]
            dim = 3 if st == "arr" else r.choice([1, 2, 2, 3, 4])
            lines.setdefault(PART[scheme], []).append(" ".join([kind, scheme, st, rz, str(dim), str(r.randrange(1, 10**6))] + h + TAIL[kind]))
    exes = c.compile({"rk%d" % p: ("rk.cpp", ["-DPART=%d" % p]) for p in lines})
    def record(suffix=""):
        out = os.path.join(c.dir, "rk.ndjson" + suffix)
        def one(p):
            sc = os.path.join(c.dir, "scen%d.txt" % p)
            open(sc, "w").write("\n".join(lines[p]) + "\n")
            t = os.path.join(c.dir, "t%d.ndjson%s" % (p, suffix))
            c.run(exes["rk%d" % p], sc, t)
            return open(t).read()
        with ThreadPoolExecutor(6) as ex, open(out, "w") as f:
            for txt in ex.map(one, sorted(lines)): f.write(txt)
        return out
    for m in model: c.model("MCRungeKutta", consts={"Kind": '"%s"' % m})
    tr = record()
    c.validate("TraceRK", tr, rerun=lambda: record(".again"), what=what + " (%d histories in the exhaustive set)" % total, expect=expect)

anyv = lambda v: True
sizable = lambda v: v[0] == "vec" and v[1] != "initially"
def has(*L): return lambda h: any(l.split(":")[0] in L for l in h)
def nohas(*L): return lambda h: not has(*L)(h)
OBJ = ("c", "k", "d", "w", "N")

def rk_C07(c):
    f = nohas("N", "d", "k", "w")
    rk_check(c, [("ctl", s, n, f, anyv) for s, n in (("ck54", 350), ("ck54c", 250), ("f78", 150), ("gene5", 250), ("dopri5", 900))],
             "attempts of controlled Runge-Kutta steppers", model=["ctl"], expect=['"lim"', '"chk"', '"dec"', '"inc"', '"tdone",true', '"tdone",false'])
def rk_C09(c):
    f = lambda h: True
    rk_check(c, [("step", "dopri5", 1300, f, anyv), ("ctl", "dopri5", 1000, f, anyv), ("dense", "dopri5", 350, f, anyv)],
             "histories of derivative-carrying steppers", model=["step", "ctl", "dense"],
             expect=['"reset"', '"inits"', '"initd"', '"isinit"', '"copy"', '"dstep"', '"chk"'])
def C10(c):
    f = nohas(*OBJ)
    rk_check(c, [("step", s, n, f, anyv) for s, n in (("euler", 350), ("rk4", 350), ("rk4c", 350), ("ck54", 350), ("ck54c", 350),
                 ("dopri5", 350), ("f78", 300), ("gen4", 300), ("gene5", 300), ("genea5", 300))],
             "steps of explicit Runge-Kutta steppers in all call forms", expect=['"done"'])
def C12(c):
    f = lambda h: has("s", "S")(h)
    rk_check(c, [("dense", "dopri5", 900, f, anyv), ("dense", "euler", 700, f, anyv)],
             "histories of dense-output Runge-Kutta steppers", model=["dense"], expect=['"calc"', '"dret"', '"at"', '"dec"', '"lim"'])
def rk_C18(c):
    f = nohas(*OBJ)
    rk_check(c, [("step", s, 60, f, anyv) for s in MP] + [("mid", s, 30, f, anyv) for s in MP if s not in ("mp1", "mp3", "mp5", "mp7")] +
                [("step", s, n, f, anyv) for s, n in (("extr4", 250), ("extr6", 200), ("extr8", 100), ("extr10", 60))] +
                [("ctl", s, n, f, anyv) for s, n in (("extr4", 80), ("extr6", 60), ("extr8", 30), ("extr10", 20))],
             "modified midpoint and extrapolation steppers", expect=['"done"', '"mdone"', '"chk"'])
def C18(c): rk_C18(c)
def rk_C22(c):
    f = has("z")
    rk_check(c, [("step", s, n, f, sizable) for s, n in (("euler", 60), ("rk4", 150), ("rk4c", 150), ("ck54", 150), ("ck54c", 150), ("dopri5", 250), ("f78", 120))] +
                [("ctl", s, n, f, sizable) for s, n in (("ck54", 150), ("ck54c", 80), ("f78", 50), ("dopri5", 250))] +
                [("step", s, n, f, sizable) for s, n in (("mp2", 40), ("mp4", 40), ("extr4", 60), ("extr6", 40), ("extr8", 20))] + [("mid", "mp4", 12, f, sizable)] +
                [("dense", s, n, f, sizable) for s, n in (("euler", 150), ("dopri5", 200))],
             "changes of dimension in Runge-Kutta steppers", expect=['"size"', '"redim"'])
def rk_C23(c):
    f = has("c", "k", "N")
    rk_check(c, [("step", s, n, f, anyv) for s, n in (("euler", 60), ("rk4", 100), ("rk4c", 100), ("ck54", 100), ("ck54c", 100), ("dopri5", 250), ("f78", 60), ("gen4", 80), ("gene5", 80),
                    ("mp2", 30), ("mp3", 30), ("extr4", 60), ("extr6", 40))] +
                [("ctl", s, n, f, anyv) for s, n in (("ck54", 100), ("ck54c", 60), ("f78", 40), ("gene5", 60), ("dopri5", 250))] +
                [("dense", s, n, f, anyv) for s, n in (("euler", 250), ("dopri5", 350))],
             "copies of Runge-Kutta steppers", model=["step", "dense"], expect=['"copy"', '"drop"', '"new"'])
