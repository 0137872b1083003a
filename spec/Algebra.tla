------------------------------- MODULE Algebra -------------------------------
(***************************************************************************)
(* An algebra applies an operation to n operands of equal length: once for *)
(* every index, in any order (also concurrently), to the elements of that  *)
(* index, and touches nothing else (property C24).                         *)
(*                                                                         *)
(* There are 15 operands in memory; operand j (from 0) of an application   *)
(* is container Slot(j).  Element i of container j starts as 1000j + i - 1.*)
(* The operation adds 100000 to the element of its first operand (and,     *)
(* with two written operands, 200000 to that of the second).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg, memory, left
avars == <<cfg, memory, left>>

Slot(j) == IF cfg.alias /\ j = cfg.n THEN 1 ELSE j      \* 1..n
AStart(c) ==
  /\ cfg = c
  /\ memory = [j \in 1..15 |-> [k \in 1..c.len |-> 1000*j + k - 1]]
  /\ left = 1..c.len

Tuple(k) == [j \in 1..cfg.n |-> memory[Slot(j)][k]]

\* one application of the operation, to the elements of index k
Apply(k) ==
  /\ k \in left
  /\ left' = left \ {k}
  /\ memory' = [memory EXCEPT ![1][k] = @ + 100000,
                              ![2][k] = IF cfg.writes = 2 THEN @ + 200000 ELSE @]
  /\ UNCHANGED cfg

Done == left = {}
Untouched == \A j \in 2..15 : \A k \in 1..cfg.len :
               memory[j][k] = 1000*j + k - 1 + (IF j = 2 /\ cfg.writes = 2 /\ k \notin left THEN 200000 ELSE 0)
OncePerElement == \A k \in 1..cfg.len : memory[1][k] = 1000 + k - 1 + (IF k \in left THEN 0 ELSE 100000)

(* the maximum norm *)
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE MaxAbs(_)
MaxAbs(v) == IF v = <<>> THEN 0
             ELSE LET m == MaxAbs(Tail(v)) IN IF Abs(Head(v)) > m THEN Abs(Head(v)) ELSE m
Max(a, b) == IF a > b THEN a ELSE b

(* scaled errors, in units of 1/32768, rounded down *)
Scaled(e, den) == (Abs(e) * 32768) \div den
DenX(c) == c.ea + c.er * (c.ax * Abs(c.x) + c.ad * Abs(c.d))
DenM(c) == c.ea + c.er * Max(Abs(c.x), Abs(c.y))
RelValue(c) ==
  CASE c.kind = "rel_error"         -> Scaled(c.e, DenX(c))
    [] c.kind = "default_rel_error" -> Scaled(c.e, DenM(c))
    [] c.kind = "rel_error_max"     -> Max(c.r * 32768, Scaled(c.e, DenM(c)))
    [] c.kind = "rel_error_max2"    -> Max(c.r * 32768, Scaled(c.e, DenX(c)))
    [] c.kind = "maximum"           -> 32768 * Max(Abs(c.x), Abs(c.d))
    [] OTHER -> -1
=============================================================================
