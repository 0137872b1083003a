"""Fixed-step multistep methods (C13, C14)."""
import os
from lib import *
from props_rk import ALL, OBJ, has, nohas, anyv, sizable

EXTR = {k: "extr%d" % max(4, k + k % 2) for k in range(1, 9)}
def adams_check(c, plan, what, model=(), expect=()):
    """plan: [(kind, k, number, filter, variant filter)]"""
    r = c.rng
    gen = c.generate("GenOps", os.path.join(c.dir, "ops.json"), consts=dict(MaxLen=3))
    parts = {}
    for kind, k, n, flt, vflt in plan:
        H = [h for h in gen["corrector" if kind == "am" else "adams"] if flt(h)]
        if c.thorough: n *= 12
        V = [v for v in ALL if vflt(v)]
        for m, h in enumerate(r.sample(H, min(n, len(H)))):
            st, rz = V[m % len(V)]
            dim = 3 if st == "arr" else r.choice([1, 2, 2, 3, 4])
            start = "rk4" if kind == "abm" else EXTR[k] if m % 3 else "rk4"
            if kind == "ab" and k > 6 and m % 4: start = "rk4"
            if kind == "am": h = h + ["i", "o", "w", "i"]
            else:
                pre = [r.choice(["i", "o"])] * r.randrange(0, k + 2)
                h = pre + h + [r.choice("ioaRS") for _ in range(k + 1)] + ["w", "i", "o"]
            parts.setdefault((k - 1) % 4, []).append(" ".join([kind, str(k), st, rz, str(dim), str(r.randrange(1, 10**6)), start] + h))
    exes = c.compile({"adams%d" % p: ("adams.cpp", ["-DPART=%d" % p]) for p in parts})
    def record(suffix=""):
        out = os.path.join(c.dir, "adams.ndjson" + suffix)
        def one(p):
            sc = os.path.join(c.dir, "ascen%d.txt" % p)
            open(sc, "w").write("\n".join(parts[p]) + "\n")
            t = os.path.join(c.dir, "at%d.ndjson%s" % (p, suffix))
            c.run(exes["adams%d" % p], sc, t)
            return open(t).read()
        with ThreadPoolExecutor(6) as ex, open(out, "w") as f:
            for txt in ex.map(one, sorted(parts)): f.write(txt)
        return out
    for m in model: c.model("MCAdams", consts={"Kind": '"%s"' % m})
    c.validate("TraceAdams", record(), rerun=lambda: record(".again"), what=what, expect=expect)

KS = range(1, 9)
f = nohas(*OBJ)
def C13(c):
    adams_check(c, [("ab", k, 150 if k < 5 else 90, f, anyv) for k in KS], "histories of Adams-Bashforth steppers",
                expect=['"done"', '"inited"', '"reset"', '"isinit"', '"shows"', '"redim"', '"size"'])
def C14(c):
    adams_check(c, [("abm", k, 150 if k < 5 else 90, f, anyv) for k in KS] + [("am", k, 40, f, anyv) for k in KS],
                "histories of Adams-Bashforth-Moulton steppers and the corrector", expect=['"done"', '"inited"', '"reset"', '"am"', '"redim"', '"size"'])

def adams_C22(c):
    g = has("z")
    adams_check(c, [(kd, k, 40, g, sizable) for k in KS for kd in ("ab", "abm")], "changes of dimension in multistep steppers", expect=['"size"', '"redim"'])
def adams_C23(c):
    g = has("c", "k", "N")
    adams_check(c, [(kd, k, 40, g, anyv) for k in KS for kd in ("ab", "abm", "am")], "copies of multistep steppers", expect=['"copy"', '"drop"'])

def C11(c):
    c.model("MCOrder")
    exe = c.compile({"order": ("order.cpp", [])})["order"]
    def record(suffix=""):
        out = os.path.join(c.dir, "order.ndjson" + suffix)
        c.run(exe, out, c.seed)
        return out
    c.validate("TraceOrder", record(), rerun=lambda: record(".again"), what="schemes extracted from the steppers by unit-vector probing; rooted trees up to order 10",
               expect=['"dopri5"', '"extr10"', '"kind":"dense"', '"kind":"multi"', '"am"', '"adaptive"', '"number"'])
