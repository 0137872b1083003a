-------------------------- MODULE TraceRosenbrock --------------------------
EXTENDS Rosenbrock, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, c, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ RoStart(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "step"  -> Open(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "rhs"   -> Rhs(e[2], e[3], e[4], e[5])
    [] e[1] = "jac"   -> Jac(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "done"  -> Done(e[2], e[3], e[4])
    [] e[1] = "prep"  -> Prep(e[2])
    [] e[1] = "calc"  -> Calc(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "init"  -> DenseInit(e[2], e[3], e[4], e[5])
    [] e[1] = "dstep" -> DenseOpen(e[2])
    [] e[1] = "ver"   -> Verdict(e[2], e[3])
    [] e[1] = "dret"  -> DenseClose(e[2], e[3])
    [] e[1] = "gaveup" -> GiveUp(e[2])
    [] e[1] = "at"    -> At(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "dcalc" -> DenseCalc(e[2], e[3], e[4])
    [] e[1] = "size"  -> Size(e[2], e[3])
    [] e[1] = "redim" -> Redim(e[2], e[3])
    [] e[1] = "copy"  -> Copy(e[2], e[3])
    [] e[1] = "new"   -> NewObj(e[2])
    [] e[1] = "drop"  -> Drop(e[2])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ c.op = "none" /\ UNCHANGED tvars
=============================================================================
