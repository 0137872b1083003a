--------------------------- MODULE TraceGeneration ---------------------------
(*   <<"hand", <<abs, rel, max, st>>, observations>>   built by hand            *)
(*   <<"made", form, args, observations>>              built by a generator     *)
(* What a generated object does, call for call, is what the one built by hand   *)
(* with the parameters the specification derives from the call does.  The       *)
(* hand-built objects of a scenario have different parameters and are recorded   *)
(* to behave differently, so that a wrong parameter shows.                       *)
EXTENDS Generation, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, hand, used
tvars == <<scen, pos, hand, used>>
TInit == scen \in 1..Len(Trace) /\ pos = 1 /\ hand = <<>> /\ used = {}
Rec(p) == [abs |-> p[1], rel |-> p[2], max |-> p[3], st |-> p[4]]
THand(e) ==
  /\ e[1] = "hand"
  /\ \A i \in DOMAIN hand : hand[i].p # Rec(e[2])
  /\ hand' = Append(hand, [p |-> Rec(e[2]), o |-> e[3]]) /\ used' = used
TMade(e) ==
  /\ e[1] = "made" /\ e[2] \in Forms
  /\ \E i \in DOMAIN hand :
        /\ hand[i].p = Params(e[2], e[3]) /\ hand[i].o = e[4]
  /\ used' = used \cup {e[2]} /\ hand' = hand
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ LET e == Trace[scen].ev[pos] IN THand(e) \/ TMade(e)
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ used # {}
     /\ UNCHANGED tvars
=============================================================================
