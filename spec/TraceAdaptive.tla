--------------------------- MODULE TraceAdaptive ----------------------------
EXTENDS AdaptiveAdams, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, c, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ AStart(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "step" -> Open("step", e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "try"  -> Open("try", e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "init" -> OpenInit(e[2], e[3], e[4], e[5])
    [] e[1] = "with" -> OpenWith(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "ictl" -> OpenControlled(e[2], e[3], e[4], e[5])
    [] e[1] = "rhs"  -> Rhs(e[2], e[3], e[4], e[5])
    [] e[1] = "mtry" -> Other(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "adj"  -> AdjustStep(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "ord"  -> AdjustOrder(e[2], e[3], e[4], e[5])
    [] e[1] = "done" -> Done(e[2], e[3], e[4])
    [] e[1] = "started" -> Started(e[2], e[3], e[4])
    [] e[1] = "tried" -> Tried(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "reset" -> Reset(e[2])
    [] e[1] = "copy" -> Copy(e[2], e[3])
    [] e[1] = "new"  -> NewObj(e[2])
    [] e[1] = "drop" -> Drop(e[2])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ c.op = "none" /\ UNCHANGED tvars
=============================================================================
