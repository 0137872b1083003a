------------------------------- MODULE PassBy -------------------------------
(* Passing functions, observers, steppers and checkers to the library.        *)
(* An argument is handed over by value ("v") or through a reference wrapper   *)
(* of Boost ("b") or of the standard library ("s").  The ledger of an argument *)
(* counts how often the object was copied, and the calls made on the caller's  *)
(* own object and on copies of it.                                             *)
EXTENDS Integers, Sequences
Modes == {"v", "b", "s"}
Ledger == [copies : Nat, own : Nat, other : Nat]

\* by value: the caller's object is never called; by reference: it alone is
\* called, and never copied
Kept(m, l) == IF m = "v" THEN l.own = 0 ELSE l.copies = 0 /\ l.other = 0
Total(l) == l.own + l.other

\* a collection of n observers over a list of observations <<x, t>>: the calls
\* <<which observer, x, t>> in the order they have to be made
Fanout(n, obs) == [j \in 1..(n * Len(obs)) |-> <<((j - 1) % n) + 1, obs[((j - 1) \div n) + 1][1], obs[((j - 1) \div n) + 1][2]>>]
=============================================================================
