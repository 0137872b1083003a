------------------------------ MODULE TraceRK ------------------------------
(* Recorded histories of the real Runge-Kutta steppers, controllers and     *)
(* dense-output steppers must be behaviours of RungeKutta.                  *)
EXTENDS RungeKutta, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, mem, c, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ Start(Trace[j].cfg)
Event(e) ==
  CASE e[1] = "call"   -> Open("call", e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "try"    -> Open("try", e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "rhs"    -> Rhs(e[2], e[3], e[4], e[5])
    [] e[1] = "done"   -> Done(e[2], e[3], e[4], e[5])
    [] e[1] = "mdone"  -> MidDone(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "lim"    -> Limit(e[2], e[3], e[4])
    [] e[1] = "chk"    -> Check(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "adj"    -> Adjust(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "tdone"  -> TryDone(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "reset"  -> Reset(e[2])
    [] e[1] = "inits"  -> InitSys(e[2], e[3], e[4])
    [] e[1] = "inited" -> InitSysDone
    [] e[1] = "initd"  -> InitDeriv(e[2], e[3])
    [] e[1] = "isinit" -> IsInit(e[2], e[3])
    [] e[1] = "size"   -> Size(e[2], e[3])
    [] e[1] = "redim"  -> Redim(e[2], e[3])
    [] e[1] = "copy"   -> Copy(e[2], e[3])
    [] e[1] = "new"    -> NewObj(e[2])
    [] e[1] = "drop"   -> Drop(e[2])
    [] e[1] = "init"   -> DenseInit(e[2], e[3], e[4], e[5])
    [] e[1] = "dstep"  -> DenseOpen(e[2])
    [] e[1] = "dret"   -> DenseClose(e[2], e[3])
    [] e[1] = "at"     -> At(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "calc"   -> Calc(e[2], e[3], e[4])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ c.op = "none" /\ UNCHANGED tvars
=============================================================================
