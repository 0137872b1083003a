---------------------------- MODULE TraceIterate ----------------------------
(* Recorded traversals of the real iterators, each a behaviour of Iterate.  *)
EXTENDS Iterate, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status, phase, seen, cands, retry, scen, pos>>

TInit == \E k \in 1..Len(Trace) : scen = k /\ pos = 1 /\ IStart(Trace[k].cfg)

Event(e) ==
  CASE e[1] = "eq"    -> Compare(e[2])
    [] e[1] = "pair"  -> Deref(e[2], e[3])
    [] e[1] = "state" -> Deref(e[2], e[2] - cfg.x0 + cfg.t0)
    [] e[1] = "inc"   -> Advance
    [] e[1] = "incd"  -> Advanced
    [] e[1] = "step"  -> IPlain(e[2], e[3], e[4])
    [] e[1] = "try"   -> ITry(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "init"  -> IInit(e[2], e[3], e[4])
    [] e[1] = "dstep" -> IDense(e[2], e[3], e[4])
    [] e[1] = "calc"  -> ICalc(e[2])
    [] e[1] = "fin"   -> Finish(e[2], e[3], e[4], e[5])
    [] OTHER -> FALSE

TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ Event(Trace[scen].ev[pos])
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ status = "ret"
     /\ UNCHANGED tvars
=============================================================================
