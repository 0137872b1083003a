"""How arguments are passed (C26) and what the generation functions build (C27)."""
import os
from lib import *

def seeded(c, exes, name, n, trace_spec, what, expect):
    sc = os.path.join(c.dir, "seeds.txt")
    open(sc, "w").write("\n".join(str(c.rng.randrange(1, 2**31)) for _ in range(n)) + "\n")
    def record(suf=""):
        t = os.path.join(c.dir, name + ".ndjson" + suf)
        with open(t, "w") as f:
            for k in sorted(exes):
                c.run(exes[k], sc, t + ".part"); f.write(open(t + ".part").read()); os.remove(t + ".part")
        return t
    c.validate(trace_spec, record(), rerun=lambda: record(".again"), what=what, expect=expect)

def C26(c):
    c.model("MCPassBy", consts=dict(Depth=60) if c.thorough else None)
    exes = c.compile({"passby%d" % i: ("passby.cpp", ["-DPART=%d" % i]) for i in range(5)})
    seeded(c, exes, "passby", 250 if c.thorough else 25, "TracePassBy", "entry points with their arguments passed in all ways",
           ['["b","s"', '["s","v"', '["v","v","v"]', '["s","v","s","s"]', '"collect",3', 'view integrate_times, checked'])

def C27(c):
    exes = c.compile({"generation%d" % i: ("generation.cpp", ["-DPART=%d" % i]) for i in range(2)})
    seeded(c, exes, "generation", 300 if c.thorough else 40, "TraceGeneration", "generated steppers against hand-built ones",
           ['"max+st"', '"max"', '"tol+st"', '"conv"', 'dense_output rosenbrock', 'controlled adams', 'custom factories'])

EIGEN = ["-fopenmp", "-I/usr/include/eigen3"]
def shape(c):
    """The container contract below all resizing and copying."""
    exe = c.compile({"shape": ("shape.cpp", EIGEN)})["shape"]
    def record(suf=""):
        t = os.path.join(c.dir, "shape.ndjson" + suf); c.run(exe, t, c.seed, 600 if c.thorough else 40); return t
    c.validate("TraceShape", record(), rerun=lambda: record(".again"), what="shapes, resizers and copies of every container",
               expect=['"can"', '"adjust"', '"ask"', '"clone"', '"copy"', '"instance"', 'multi_array 3', 'openmp_state', 'eigen matrix', 'vector to range'])

def containers(c):
    """Runs that go on with copies and with assigned steppers, in every container."""
    exes = c.compile({"con%d" % p: ("containers.cpp", ["-DPART=%d" % p] + EIGEN) for p in ((0, 1, 2, 3) if c.thorough else (0, 1, 3))})
    def record(suf=""):
        t = os.path.join(c.dir, "containers.ndjson" + suf)
        with open(t, "w") as f:
            for k in sorted(exes):
                c.run(exes[k], t + ".part", c.seed, 60 if c.thorough else 6, "copies", env={"OMP_NUM_THREADS": "3"}); f.write(open(t + ".part").read()); os.remove(t + ".part")
        return t
    c.validate("TraceTwin", record(), rerun=lambda: record(".again"), what="copied and assigned steppers in every container",
               expect=['"copies"', '"ublas"', '"multi_array 2"', '"eigen dynamic"', '"openmp state"'])
