----------------------------- MODULE TraceAdams -----------------------------
(* Recorded histories of the real multistep steppers must be behaviours of   *)
(* Adams.                                                                    *)
EXTENDS Adams, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, c, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ Start(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "call"   -> Open(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "am"     -> OpenAM(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "rhs"    -> Rhs(e[2], e[3], e[4], e[5])
    [] e[1] = "done"   -> Done(e[2], e[3])
    [] e[1] = "init"   -> Init(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "inited" -> Inited(e[2], e[3])
    [] e[1] = "reset"  -> Reset(e[2])
    [] e[1] = "isinit" -> IsInit(e[2], e[3])
    [] e[1] = "shows"  -> Shows(e[2], e[3])
    [] e[1] = "size"   -> Size(e[2], e[3])
    [] e[1] = "redim"  -> Redim(e[2], e[3])
    [] e[1] = "copy"   -> Copy(e[2], e[3])
    [] e[1] = "new"    -> NewObj(e[2])
    [] e[1] = "drop"   -> Drop(e[2])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ c.op = "none" /\ UNCHANGED tvars
=============================================================================
