------------------------------ MODULE TraceGrid ------------------------------
(* Observation grids of long integrations with arbitrary step sizes.  The    *)
(* recording samples the observation number k, and how many units in the     *)
(* last place its time is away from start + k*dt.  An accumulated time       *)
(* drifts by hundreds of units, the direct computation stays within two.     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT MaxUlp
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, k, done
vars == <<scen, pos, k, done>>
Init == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ k = -1 /\ done = FALSE
Cfg == Trace[scen].cfg
Observe(j, ulp) == ~done /\ k < j /\ j <= Cfg.n /\ 0 <= ulp /\ ulp <= MaxUlp
                   /\ k' = j /\ UNCHANGED done
(* exactly n+1 observations, the last one n; the returned time resp. number of steps *)
Return(count, retulp) == ~done /\ k = Cfg.n /\ count = Cfg.n + 1
                   /\ 0 <= retulp /\ retulp <= MaxUlp
                   /\ done' = TRUE /\ UNCHANGED k
Event(e) == CASE e[1] = "obs" -> Observe(e[2], e[3])
              [] e[1] = "ret" -> Return(e[2], e[3])
              [] OTHER -> FALSE
Next == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
        \/ /\ pos > Len(Trace[scen].ev) /\ done /\ UNCHANGED vars
=============================================================================
