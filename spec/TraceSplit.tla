----------------------------- MODULE TraceSplit -----------------------------
(* Recorded operations on split states.  "set"/"sety"/"plain" are assignments *)
(* of the driver; "adapt" are the parts the range adaptor gives; "all" is a   *)
(* value that was computed several times.                                     *)
EXTENDS Split, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<scen, pos, x, y, plain>>
TInit == scen \in 1..Len(Trace) /\ pos = 1 /\ x = <<>> /\ y = <<>> /\ plain = <<>>
Step(e) ==
  CASE e[1] = "plain" -> plain' = e[2] /\ UNCHANGED <<x, y>>
    [] e[1] = "setx" -> x' = e[2] /\ UNCHANGED <<y, plain>>
    [] e[1] = "sety" -> y' = e[2] /\ UNCHANGED <<x, plain>>
    [] e[1] = "ctor" -> e[2] = e[3] /\ x' = e[2] /\ UNCHANGED <<y, plain>>
    [] e[1] = "split" -> SplitInto(e[2], e[3])
    [] e[1] = "join" -> Join(e[2], e[3])
    [] e[1] = "resize" -> ResizeY(e[2])
    [] e[1] = "same" -> (\A i \in 1..Len(e[2]) : SameSize(e[2][i])) /\ UNCHANGED svars
    [] e[1] = "copy" -> CopyToY(e[2], e[3])
    [] e[1] = "adapt" -> Len(e[3]) = e[2] /\ Flat(e[3]) = plain /\ UNCHANGED svars
    [] e[1] = "norm" -> NormX(e[2])
    [] OTHER -> FALSE
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ Step(Trace[scen].ev[pos])
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev)
     /\ UNCHANGED tvars
=============================================================================
