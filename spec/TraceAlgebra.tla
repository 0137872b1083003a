---------------------------- MODULE TraceAlgebra ----------------------------
EXTENDS Algebra, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, memory, left, scen, pos>>

TInit == \E k \in 1..Len(Trace) : /\ scen = k /\ pos = 1
            /\ IF Trace[k].cfg.kind = "apply" THEN AStart(Trace[k].cfg)
               ELSE cfg = Trace[k].cfg /\ memory = <<>> /\ left = {}

Event(e) ==
  CASE e[1] = "op"   -> cfg.kind = "apply" /\ \E k \in left : Tuple(k) = e[2] /\ Apply(k)
    [] e[1] = "mem"  -> Done /\ cfg.kind = "apply" /\ memory = e[2] /\ UNCHANGED avars
    [] e[1] = "norm" -> cfg.kind = "norm" /\ e[3] = MaxAbs(e[2]) /\ UNCHANGED avars
    [] e[1] = "val"  -> cfg.kind \notin {"apply", "norm"} /\ e[2] = RelValue(cfg) /\ UNCHANGED avars
    [] OTHER -> FALSE

TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ Event(Trace[scen].ev[pos])
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev)
     /\ UNCHANGED tvars
AInv == cfg.kind = "apply" => Untouched /\ OncePerElement
=============================================================================
