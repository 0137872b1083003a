------------------------------ MODULE MCAlgebra ------------------------------
(* All interleavings of the applications, for all operand counts.           *)
EXTENDS Algebra, TLC
CONSTANT MaxLen
MCInit == \E nn \in 1..15, l \in 0..MaxLen, w \in 1..2, a \in BOOLEAN :
            /\ w = 2 => nn >= 2 /\ ~a
            /\ AStart([n |-> nn, len |-> l, writes |-> w, alias |-> a])
MCNext == \/ \E k \in 1..cfg.len : Apply(k)
          \/ Done /\ UNCHANGED avars
\* whatever the order, the outcome is the same
Outcome == Done => memory[1] = [k \in 1..cfg.len |-> 101000 + k - 1]
=============================================================================
