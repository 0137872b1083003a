----------------------------- MODULE MCStepLaw ------------------------------
(* The elementary law in a closed loop: the error of a step of length s is   *)
(* (s/h)^k.  Whatever the first step, the direction and the maximum: every   *)
(* refusal or rejection shrinks the step by a bounded factor and is followed *)
(* by an acceptance, steps are never grown beyond 9/2 nor beyond the maximum.*)
EXTENDS StepLaw
CONSTANT Top
VARIABLES len, top, bal, kk, rejects, phase, prev
mvars == <<cfg, hist, len, top, bal, kk, rejects, phase, prev>>
\* all lengths in ticks, direction in cfg
MInit == /\ LawStart([dir |-> 1]) /\ len \in 1..Top /\ top \in {0} \cup {1, 3, 10, Top} /\ bal \in {5, 12, 60, Top}
         /\ kk \in 1..4 /\ rejects = 0 /\ phase = "try" /\ prev = 0
Lim(v) == IF top # 0 THEN Min(v, top) ELSE v
AtLeast(v) == Max(1, v)
Try == /\ phase = "try"
       /\ prev' = len
       /\ IF top # 0 /\ len > top
          THEN len' = top /\ rejects' = rejects + 1 /\ phase' = "refused"
          ELSE IF len > bal                              \* err > 1: max(0.9 h/len, 1/5) * len, rounded
          THEN len' = Lim(Max((9 * bal) \div 10, len \div 5)) /\ rejects' = rejects + 1 /\ phase' = "rejected"
          ELSE /\ rejects' = 0 /\ phase' = "accepted"
               /\ len' = IF 2 * IPow(len, kk) < IPow(bal, kk) THEN Lim(AtLeast(IF 5 * len <= bal THEN (9 * len) \div 2 ELSE (9 * bal) \div 10)) ELSE len
       /\ UNCHANGED <<cfg, hist, top, bal, kk>>
Again == phase # "try" /\ phase' = "try" /\ UNCHANGED <<cfg, hist, len, top, bal, kk, rejects, prev>>
MNext == Try \/ Again
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)
Shrinks == phase \in {"refused", "rejected"} => len < prev
Bounded == phase = "rejected" => 5 * len >= prev - 4
Grows == phase = "accepted" => 2 * len <= 9 * prev /\ (top # 0 => len <= Max(top, prev))
NoLoop == rejects <= 8
Progress == []<>(phase = "accepted")
\* a rejection is never followed by an attempt at a length already rejected
=============================================================================
