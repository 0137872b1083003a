----------------------------- MODULE TraceGuard -----------------------------
(* The retry loop around a stepper that may reject: rejections in a row are  *)
(* counted, an acceptance forgives them, and between lo and hi of them the   *)
(* loop gives up with an exception.  It never gives up earlier and never     *)
(* goes on longer.                                                           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, fails, acc, status
vars == <<scen, pos, fails, acc, status>>
Cfg == Trace[scen].cfg
Init == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ fails = 0 /\ acc = 0 /\ status = "run"
Try(ok) == /\ status = "run" /\ fails < Cfg.hi
           /\ fails' = (IF ok THEN 0 ELSE fails + 1)
           /\ acc' = (IF ok THEN acc + 1 ELSE acc)
           /\ UNCHANGED status
\* many attempts at once (only their cost is visible)
Calls(n) == /\ status = "run" /\ n <= Cfg.hi /\ fails' = n /\ UNCHANGED <<acc, status>>
GiveUp == /\ status = "run" /\ Cfg.endless /\ fails >= Cfg.lo /\ status' = "throw" /\ UNCHANGED <<fails, acc>>
Return == /\ status = "run" /\ fails = 0 /\ acc >= Cfg.steps /\ status' = "ret" /\ UNCHANGED <<fails, acc>>
Event(e) == CASE e[1] = "try" -> Try(e[2])
              [] e[1] = "calls" -> Calls(e[2])
              [] e[1] = "throw" -> GiveUp
              [] e[1] = "ret" -> Return
              [] OTHER -> FALSE
Next == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
        \/ /\ pos > Len(Trace[scen].ev) /\ status # "run" /\ UNCHANGED vars
Bounded == fails <= Cfg.hi
=============================================================================
