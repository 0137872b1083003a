"""Algebras, operations, containers, split states (C24, C25)."""
import os, shutil
from concurrent.futures import ThreadPoolExecutor
from lib import *

EIGEN = ["-fopenmp", "-I/usr/include/eigen3"]
ENV = {"OMP_NUM_THREADS": "3"}

def C24(c):
    jobs = {"alg%d" % p: ("algebra.cpp", ["-DPART=%d" % p] + (["-fopenmp"] if p in (1, 4) else [])) for p in range(5)}
    jobs.update({"con%d" % p: ("containers.cpp", ["-DPART=%d" % p] + EIGEN) for p in range(4)})
    jobs.update({"mea%d" % p: ("measure.cpp", ["-DPART=%d" % p] + EIGEN) for p in range(4)})
    exes = c.compile(jobs)
    c.model("MCAlgebra", consts=dict(MaxLen=5 if c.thorough else 4))
    def record(suf=""):
        files = {}
        def one(n):
            f = os.path.join(c.dir, n + ".ndjson" + suf)
            if n.startswith("alg"): c.run(exes[n], f, c.seed, env=ENV)
            elif n.startswith("mea"): c.run(exes[n], f, c.seed, 200 if c.thorough else 25, env=ENV)
            else: c.run(exes[n], f, c.seed, 60 if c.thorough else 6, env=ENV)
            files[n] = open(f).read().splitlines(True)
        with ThreadPoolExecutor(6) as ex: list(ex.map(one, exes))
        out = {k: os.path.join(c.dir, k + ".ndjson" + suf) for k in ("algebra", "sums", "twin", "measure")}
        al = [l for n in sorted(files) if n.startswith("alg") for l in files[n]]
        open(out["algebra"], "w").writelines(l for l in al if '"s":' not in l)
        open(out["sums"], "w").writelines(l for l in al if '"s":' in l)
        open(out["twin"], "w").writelines(l for n in sorted(files) if n.startswith("con") for l in files[n])
        open(out["measure"], "w").writelines(l for n in sorted(files) if n.startswith("mea") for l in files[n])
        return out
    t = record()
    c.validate("TraceAlgebra", t["algebra"], rerun=lambda: record(".again")["algebra"], what="for_each and norm of every algebra")
    c.validate("TraceSums", t["sums"], rerun=lambda: record(".again")["sums"], what="operations")
    c.validate("TraceTwin", t["twin"], rerun=lambda: record(".again")["twin"], what="same steps in every container",
               expect=['"range"', '"boost array"', '"ublas"', '"multi_array 2"', '"fusion"', '"point"', '"eigen dynamic"', '"openmp state"'])
    c.validate("TraceTwin", t["measure"], rerun=lambda: record(".again")["measure"], what="the same error measures and decisions in every container, to the last bit",
               expect=['"measure"', '"controlled cash karp"', '"controlled dopri5"', '"bulirsch stoer"', '"controlled adams"', '"ublas matrix"', '"eigen matrix"'])

MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
          "OMP_NUM_THREADS": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1"}

def C25(c):
    c.model("MCSplit", consts=dict(MaxLen=4 if c.thorough else 3))
    exes = c.compile({"split": ("split.cpp", ["-DMPI=0", "-fopenmp"])})
    n = 1600 if c.thorough else 320
    mpi = []
    if shutil.which("mpic++") and shutil.which("mpirun"):
        # whether processes can be started here at all is not a question about odeint
        r = subprocess.run(["mpirun", "-n", "2", "true"], env={**os.environ, **MPIENV}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if r.returncode == 0:
            flags = subprocess.run(["mpic++", "--showme:compile"], stdout=subprocess.PIPE, text=True).stdout.split()
            link = subprocess.run(["mpic++", "--showme:link"], stdout=subprocess.PIPE, text=True).stdout.split()
            exes.update(c.compile({"splitmpi": ("split.cpp", ["-DMPI=1"] + flags + ["-lboost_mpi", "-lboost_serialization"] + [l for l in link if l.startswith("-")])}))
            mpi = [1, 2, 3, 5] + ([4, 7, 8] if c.thorough else [])
    if not mpi: c.assumptions.append("MPI processes cannot be started in this environment: mpi_state not exercised in this run")
    def record(suf=""):
        o = {k: os.path.join(c.dir, k + ".ndjson" + suf) for k in ("ops", "twin")}
        acc = {"ops": [], "twin": []}
        def take(name, *pre):
            a, b = (os.path.join(c.dir, "%s.%s%s" % (name, k, suf)) for k in ("ops", "twin"))
            for f in (a, b): open(f, "w").close()
            died = []
            if pre:
                try: c.run("mpirun", "--oversubscribe", "-n", pre[0], exes["splitmpi"], a, b, c.seed, 400 if c.thorough else 80, env=MPIENV)
                except CheckError: died = ['{"cfg":{"np":%d},"ev":[["crash"]]}\n' % pre[0]]
            else: c.run(exes["split"], a, b, c.seed, n)
            acc["ops"] += open(a).readlines() + died; acc["twin"] += open(b).readlines()
        take("omp")
        for k in mpi: take("mpi%d" % k, k)
        for k in o: open(o[k], "w").writelines(acc[k])
        return o
    t = record()
    c.validate("TraceSplit", t["ops"], rerun=lambda: record(".again")["ops"], what="operations on split states",
               expect=['"split"', '"join"', '"resize"', '"same"', '"copy"', '"norm"', '"adapt"', '"ctor"'] + (['"np"'] if mpi else []))
    c.validate("TraceTwin", t["twin"], rerun=lambda: record(".again")["twin"], what="integration of split and plain states",
               expect=['"8 threads, 9 parts"', '"8 threads, range"'] + (['"mpi"'] if mpi else []))
