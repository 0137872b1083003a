-------------------------------- MODULE Shape --------------------------------
(* The container contract behind all resizing: a shape is the sequence of all   *)
(* extents (and index bases, for containers that have them) of a container;     *)
(* resizing makes the shape of the first argument that of the second, sameness   *)
(* of size is equality of shapes, and a resizer decides when it is looked at.    *)
EXTENDS Integers, Sequences
\* the shape a container gets that is adjusted to another one of shape s: square
\* matrices are adjusted to vectors
Wanted(kind, s) == IF kind = "matrix to vector" THEN <<s[1], s[1]>> ELSE s
Same(kind, a, b) == a = Wanted(kind, b)
\* the outcome of adjusting a container: its shape, and whether anything was done
Adjust(kind, can, a, b) == IF can /\ ~Same(kind, a, b) THEN <<Wanted(kind, b), TRUE>> ELSE <<a, FALSE>>
\* a resizer over its lifetime: used says whether it was asked before
Looks(policy, used) == CASE policy = "always" -> TRUE [] policy = "initially" -> ~used [] policy = "never" -> FALSE
After(policy, kind, can, used, a, b) == IF Looks(policy, used) THEN Adjust(kind, can, a, b) ELSE <<a, FALSE>>
=============================================================================
