"""Error measure and step-size laws (C08; the Rosenbrock law belongs to C19)."""
import os
from lib import *

def law_check(c, which, n, what, expect):
    exe = c.compile({"steplaw": ("steplaw.cpp", [])})["steplaw"]
    if c.thorough: n *= 10
    def record(suf=""):
        t = os.path.join(c.dir, "law-%s.ndjson%s" % (which, suf)); c.run(exe, c.seed, n, t, which); return t
    c.validate("TraceStepLaw", record(), rerun=lambda: record(".again"), what=what, expect=expect)

def C08(c):
    c.model("MCStepLaw", consts=dict(Top=140 if c.thorough else 70))
    law_check(c, "rk", 800, "error checker, elementary and PID adjuster, controlled steps with scripted errors",
              ['"err"', '"verd"', '"dec"', '"inc"', '"lim"', '"att"', '"atmax":true', '"H0321"', '"mx":"double"', '"copy"', '"e":888888'])
    law_check(c, "ros", 500, "Rosenbrock controller with scripted errors", ['"ros"', '"rerr"', '"last"', '"copy"', '"a":1000'])
