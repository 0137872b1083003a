-------------------------- MODULE MCExtrapolation ---------------------------
(* Consequences of the control law, over all histories of attempts with      *)
(* errors from a few classes in monotone and other patterns: the order stays *)
(* between 2 and 7, no more than 8 rows are asked for, a failed attempt makes *)
(* the step smaller, an accepted one had an error below one, nothing grows   *)
(* right after a failure and the limit is respected.                         *)
EXTENDS ExtrapolationControl
CONSTANT Kind, Ci
Classes == {-6000000, -120000, 60000, 1800000, 7000000}
VARIABLES last
Pattern(a, b, d, i, j) == [n \in 1..8 |-> IF n < i THEN a ELSE IF n < j THEN b ELSE d]
Scripts == TLCEval({Pattern(a, b, d, i, j) : a \in Classes, b \in Classes, d \in Classes, i \in {2, 3, 4, 5, 6, 7, 8}, j \in {3, 5, 6, 7, 8}})
Quiet == [ok |-> TRUE, n |-> 1, k |-> 4, ln |-> 0, e |-> -1, lm |-> Never, was |-> Fresh]
MInit == Start([kind |-> Kind, ci |-> Ci]) /\ last = Quiet
MNext == \/ \E S \in Scripts, lm \in {0, 50000, Never}, ci \in (IF Ci THEN {-1000000, 3000000} ELSE {0}) :
              \E o \in Outcomes(mem[0], S, ci) : \E s \in Steps(mem[0], o, lm) :
                /\ mem' = (0 :> [first |-> FALSE, rej |-> ~o.ok, k |-> o.k])
                /\ last' = [ok |-> o.ok, n |-> o.n, k |-> o.k, ln |-> s, e |-> S[o.n], lm |-> lm, was |-> mem[0]]
                /\ UNCHANGED cfg
         \/ Anew(0) /\ last' = Quiet
Orders == mem[0].k \in 2..KTop
Rows == last.n \in 1..8 /\ last.n <= last.was.k + 1
Sound == last.ok => last.e <= Eps
Window == last.ok => last.was.first \/ last.n >= last.was.k - 1
Shrinks == ~last.ok => last.ln < 0
Careful == last.was.rej => last.ln <= 0
Bounded == last.ln <= last.lm
OneByOne == last.k \in (last.was.k - 1)..(last.was.k + 1) \/ last.was.first
\* a failing step of the first attempt works through every row it has
Gentle == ~last.ok => last.ln >= ((Least \div 3) - LnTab[4])
View == <<mem, last.ok, last.n, last.k, last.ln < 0, last.ln <= last.lm, last.e <= Eps, last.was>>
=============================================================================
