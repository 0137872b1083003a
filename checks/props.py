"""One function per property: what is built, recorded, generated and checked."""
import os, json
from lib import *

# ---------------------------------------------------------------- C01 - C05
def integrate_lines(c, fns, cap, extra, chks=(0,)):
    g = c.generate("GenIntegrate", os.path.join(c.dir, "gen.json"))
    pairs = []
    for call in g["calls"]:
        if call["fn"] not in fns: continue
        for sc in g["scripts"][call["cat"]]:
            pairs.append((call, [(x, 1) for x in sc]))
    total = len(pairs)
    if cap and total > cap:
        plain = [p for p in pairs if p[0]["cat"] == "plain"]
        rest = [p for p in pairs if p[0]["cat"] != "plain"]
        pairs = plain + c.rng.sample(rest, min(cap, len(rest)))
    out = []
    def emit(call, script, chk=0):
        var = c.rng.randrange(128) + 256 * c.rng.randrange(4)
        if call["fn"] in ("times",) or chk: var &= ~64
        out.append(" ".join(map(str, [call["fn"], call["cat"], int(call["obs"]), chk, call["t0"], call["t1"],
                   call["x0"], call["d"], call["n"], var, len(call["times"])] + call["times"] +
                   [len(script)] + [y for x in script for y in x])))
    for call, sc in pairs:
        chk = c.rng.choice(chks) if call["obs"] and call["fn"] != "adaptive" else 0
        emit(call, sc, chk)
    for call, sc, chk in extra: emit(call, sc, chk)
    p = os.path.join(c.dir, "scen.txt")
    open(p, "w").write("\n".join(out) + "\n")
    return p, total

def rand_integrate(c, fns, n):
    """Longer random scenarios outside the exhaustive bounds.  Times are multiples of a
    granule that stays a whole number of ticks under all the halvings of the script."""
    r, out = c.rng, []
    for _ in range(n):
        fn, cat, g = r.choice(fns), r.choice(["plain", "controlled", "dense"]), r.choice([1, -1])
        fine = r.random() < .2                      # arbitrary ticks, no halvings
        U = 1 if fine else 4096
        top = 300 if fine else 40
        d = g * U * r.choice([1, 2, 3, 5, 7])
        span = U * r.randrange(-2, top)
        t0 = U * r.randrange(-60, 60)
        times = []
        if fn == "times":
            ts = [0]
            for _ in range(r.randrange(0, 12)): ts.append(ts[-1] + U * r.choice([0, 1, 2, 3, 7, r.randrange(1, 12)]))
            times = [t0 + g * t for t in ts]
        sc, left = [], 12
        shift = {1: 0, 2: 0, 3: 1, 4: 1, 5: 2, 6: 0}
        if cat != "plain":
            codes = [1, 1, 2] if fine else [1, 1, 2, 2, 3, 4, 5] + ([6] if cat == "controlled" else [])
            for _ in range(r.randrange(0, 16)):
                k = r.choice(codes)
                if shift[k] > left: k = 2
                left -= shift[k]
                sc.append((k, 1 if shift[k] else r.choice([1, 1, 1, 3])))
        out.append((dict(fn=fn, cat=cat, obs=bool(fn == "times" or r.random() < .8), t0=t0,
                         t1=t0 + g * span, x0=r.randrange(-9, 9) * 64, d=d, n=r.randrange(0, 30), times=times), sc, 0))
    return out

def integrate_check(c, fns, cap=6000, extra=(), nrand=400, chks=(0,)):
    exe = c.compile({"integrate": ("integrate.cpp", [])})["integrate"]
    extra = list(extra) + rand_integrate(c, fns, nrand if not c.thorough else nrand * 10)
    scen, total = integrate_lines(c, fns, 0 if c.thorough else cap, extra, chks)
    tr = os.path.join(c.dir, "trace.ndjson")
    c.run(exe, scen, tr)
    def rerun():
        t2 = tr + ".again"; c.run(exe, scen, t2); return t2
    c.model("MCIntegrate", consts=dict(MaxSpan=4, MaxD=3, MaxN=3) if c.thorough else dict(MaxSpan=2, MaxD=2, MaxN=2))
    c.validate("TraceIntegrate", tr, rerun=rerun, what="calls of the integrate functions",
               expect=['"step"', '"try"', '"init"', '"dstep"', '"obs"', '"ret"'] + (['"fail"]', '"max"]'] if "adaptive" not in fns and any(chks) else []))

def grid_check(c, fn):
    """Grid points of long integrations with step sizes that are not binary fractions."""
    exe = c.compile({"grid": ("grid.cpp", [])})["grid"]
    tr = os.path.join(c.dir, "grid.ndjson")
    args = [fn, 2000000 if c.thorough else 200000, c.seed]
    c.run(exe, tr, *args)
    def rerun(): c.run(exe, tr + ".again", *args); return tr + ".again"
    c.validate("TraceGrid", tr, rerun=rerun, what="no drift of the observation grid")

def C01(c): integrate_check(c, ["const"]); grid_check(c, "const")
def C02(c): integrate_check(c, ["nsteps"]); grid_check(c, "nsteps")
def C03(c): integrate_check(c, ["adaptive"])
def C04(c): integrate_check(c, ["times"])

def C05(c):
    r, extra = c.rng, []
    U = 4096
    for k in range(400 if c.thorough else 60):
        for fn in ("const", "nsteps", "adaptive", "times"):
            g = r.choice([1, -1])
            call = dict(fn=fn, cat="controlled", obs=True, t0=0, t1=g * 5 * U, x0=0, d=g * U, n=5,
                        times=[0, g * U, g * 2 * U, g * 5 * U] if fn == "times" else [])
            # rejected runs of up to 440 separated by accepted steps, then perhaps a run without end
            sc, tot = [], 0
            for _ in range(r.randrange(1, 5)):
                n = r.randrange(0, 440); sc += [(6, n)] * (n > 0) + [(r.choice([1, 2, 3]), 1)]
            if k % 2: sc += [(6, 700)]
            extra.append((call, sc, r.choice([0, 0, 3]) if fn != "adaptive" else 0))
    integrate_check(c, ["const", "nsteps", "times"], extra=extra, chks=(1, 2, 3, 5), cap=5000, nrand=0)
    exe = c.compile({"guard": ("guard.cpp", [])})["guard"]
    tr = os.path.join(c.dir, "guard.ndjson")
    args = [c.seed, 40 if c.thorough else 8]
    c.run(exe, tr, *args)
    def rerun(): c.run(exe, tr + ".again", *args); return tr + ".again"
    c.validate("TraceGuard", tr, rerun=rerun, what="attempts of dense-output steppers and iterators")
