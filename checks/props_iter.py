"""Iterators (C06)."""
import os
from lib import *
from props import rand_integrate

SUPPORTED = {("const", "plain"), ("const", "dense"), ("nsteps", "plain"), ("nsteps", "dense"),
             ("adaptive", "controlled"), ("adaptive", "dense"),
             ("times", "plain"), ("times", "controlled"), ("times", "dense")}

def C06(c):
    jobs = {"iter": ("iter.cpp", ["-DSTDREF"])}
    exe = c.compile(jobs)["iter"]
    g = c.generate("GenIntegrate", os.path.join(c.dir, "gen.json"))
    pairs = [(call, [(x, 1) for x in sc]) for call in g["calls"] if (call["fn"], call["cat"]) in SUPPORTED and call["obs"]
             for sc in g["scripts"][call["cat"]]]
    cap = 7000
    if not c.thorough and len(pairs) > cap: pairs = c.rng.sample(pairs, cap)
    pairs += [(a, b) for a, b, _ in rand_integrate(c, ["const", "nsteps", "adaptive", "times"], 8000 if c.thorough else 1000)
              if (a["fn"], a["cat"]) in SUPPORTED]
    p = os.path.join(c.dir, "scen.txt")
    with open(p, "w") as f:
        for call, sc in pairs:
            f.write(" ".join(map(str, [call["fn"], call["cat"], 1, 0, call["t0"], call["t1"], call["x0"], call["d"], call["n"],
                    c.rng.randrange(1024), len(call["times"])] + call["times"] + [len(sc)] + [y for x in sc for y in x])) + "\n")
    tr = os.path.join(c.dir, "iter.ndjson")
    c.run(exe, p, tr)
    def rerun(): c.run(exe, p, tr + ".again"); return tr + ".again"
    c.validate("TraceIterate", tr, rerun=rerun, what="traversals of the iterators",
               expect=['"step"', '"try"', '"dstep"', '"calc"', '"pair"', '"state"', '"ref"', '"val"'])
