--------------------------- MODULE TraceIntegrate ---------------------------
(* Recorded executions of the real integrate functions, each of which must  *)
(* be a behaviour of Integrate.  A rejected scenario deadlocks, and the     *)
(* counterexample is the longest accepted prefix.                           *)
EXTENDS Integrate, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status, scen, pos>>

TInit == \E k \in 1..Len(Trace) : scen = k /\ pos = 1 /\ Start(Trace[k].cfg)

Event(e) ==
  CASE e[1] = "obs"   -> Observe(e[2], e[3])
    [] e[1] = "step"  -> PlainStep(e[2], e[3], e[4])
    [] e[1] = "try"   -> TryStep(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "init"  -> Init(e[2], e[3], e[4])
    [] e[1] = "dstep" -> DenseStep(e[2], e[3], e[4])
    [] e[1] = "calc"  -> Calc(e[2])
    [] e[1] = "ret"   -> Return(e[2], e[3])
    [] e[1] = "throw" -> (IF e[2] = "fail" THEN ThrowFail
                          ELSE IF e[2] = "max" THEN ThrowMax ELSE FALSE)
    [] OTHER -> FALSE

TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ Event(Trace[scen].ev[pos])
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ status # "run"
     /\ UNCHANGED tvars
=============================================================================
