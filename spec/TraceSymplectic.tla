--------------------------- MODULE TraceSymplectic ---------------------------
EXTENDS Symplectic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, c, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ SyStart(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "step"   -> Open(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "vel"    -> Vel(e[2], e[3], e[4])
    [] e[1] = "force"  -> Force(e[2], e[3], e[4])
    [] e[1] = "done"   -> Done(e[2], e[3], e[4], e[5])
    [] e[1] = "verlet" -> Verlet(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "acc"    -> Acc(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "vdone"  -> VerletDone(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "inits"  -> InitSys(e[2], e[3], e[4], e[5])
    [] e[1] = "inited" -> InitDone
    [] e[1] = "initd"  -> InitAcc(e[2], e[3])
    [] e[1] = "reset"  -> Reset(e[2])
    [] e[1] = "isinit" -> IsInit(e[2], e[3])
    [] e[1] = "size"   -> Size(e[2], e[3])
    [] e[1] = "redim"  -> Redim(e[2], e[3])
    [] e[1] = "copy"   -> Copy(e[2], e[3])
    [] e[1] = "new"    -> NewObj(e[2])
    [] e[1] = "drop"   -> Drop(e[2])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ c.op = "none" /\ UNCHANGED tvars
=============================================================================
