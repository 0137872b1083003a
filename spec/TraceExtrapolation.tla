------------------------- MODULE TraceExtrapolation -------------------------
EXTENDS ExtrapolationControl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ Start(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "try"     -> Try(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10])
    [] e[1] = "refused" -> Refused(e[2])
    [] e[1] = "anew"    -> Anew(e[2])
    [] e[1] = "copy"    -> Copy(e[2], e[3])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ UNCHANGED tvars
=============================================================================
