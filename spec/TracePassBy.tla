----------------------------- MODULE TracePassBy -----------------------------
(* Recorded uses of one entry point with its arguments passed in all ways:     *)
(*   <<"use", entry, modes, ledgers, result>>                                  *)
(*        ledgers: per argument <<role, copies, calls on the original, on copies>> *)
(*           roles: 0 system (first function), 1 observer, 2 stepper, 3 checker *)
(*           or second function                                                *)
(*   <<"collect", n, observations, calls>>   an observer collection             *)
EXTENDS PassBy, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, seen
tvars == <<scen, pos, seen>>
None == [k \in BOOLEAN |-> [calls |-> <<>>, result |-> <<>>, done |-> FALSE]]
TInit == scen \in 1..Len(Trace) /\ pos = 1 /\ seen = None

Led(x) == [copies |-> x[2], own |-> x[3], other |-> x[4]]
\* a stepper taken by value may be copied again between intervals, and then
\* starts afresh (a carried-over derivative is that of a time that may differ in
\* the last bit from the one of the fresh one): calls and result are compared
\* among the runs of one kind, and among all of them where the calls are the same
Kind(m, l) == \E i \in 1..Len(m) : l[i][1] = 2 /\ m[i] = "v"
TUse(e) ==
  LET n == Len(e[3]) led == [i \in 1..n |-> Led(e[4][i])] k == Kind(e[3], e[4])
      calls == [i \in 1..n |-> Total(led[i])] IN
  /\ e[1] = "use" /\ Len(e[4]) = n
  /\ \A i \in 1..n : e[3][i] \in Modes /\ Kept(e[3][i], led[i]) /\ Total(led[i]) > 0
  /\ IF seen[k].done THEN seen[k].calls = calls /\ seen[k].result = e[5] ELSE TRUE
  /\ IF seen[~k].done /\ seen[~k].calls = calls THEN seen[~k].result = e[5] ELSE TRUE
  /\ seen' = [seen EXCEPT ![k] = [calls |-> calls, result |-> e[5], done |-> TRUE]]
TCollect(e) ==
  /\ e[1] = "collect" /\ e[4] = Fanout(e[2], e[3])
  /\ UNCHANGED seen
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ LET e == Trace[scen].ev[pos] IN TUse(e) \/ TCollect(e)
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ pos > 1
     /\ UNCHANGED tvars
=============================================================================
