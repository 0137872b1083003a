------------------------------ MODULE TraceTwin ------------------------------
(* Runs that have to be indistinguishable: the first run of a scenario is the *)
(* reference, every other one is a refinement of it, call by call.            *)
(*   <<"run", name, observations>>                                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, ref
tvars == <<scen, pos, ref>>
TInit == scen \in 1..Len(Trace) /\ pos = 1 /\ ref = <<>>
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ LET e == Trace[scen].ev[pos] IN
          /\ e[1] = "run"
          /\ IF pos = 1 THEN ref' = e[3] ELSE e[3] = ref /\ ref' = ref
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ pos > 2
     /\ UNCHANGED tvars
=============================================================================
