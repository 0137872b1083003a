------------------------------- MODULE GenOps -------------------------------
(* All call histories up to a length, per kind of stepper.  Letters:         *)
(*  i in place, o out of place, a in place through aliasing, R/S by          *)
(*  reference wrapper; e: with error estimate; D: derivative given           *)
(*  r reset, I/J initialize (system / derivative), j jump to another point   *)
(*  z other dimension, c copy, k assign, d destroy the other, w switch,      *)
(*  N new object; :y/:n/:l verdicts of error checker and step limit          *)
(*  dense: s step, C/L/H interpolate anywhere / left / right end,            *)
(*  I/J/K initialise elsewhere / here / from its own state                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT MaxLen
Objs == {"z", "c", "k", "d", "w", "N"}
Plain == {"i", "o", "a", "R", "S", "iD", "oD", "aD"} \cup Objs
WithErr == {"i", "o", "iD", "oD", "e", "oe", "ae", "eD", "oeD"} \cup Objs
Fsal == {"i", "o", "a", "e", "oe", "iD", "oD", "eD", "oeD", "r", "I", "J", "j"} \cup Objs
Ctl == {"i:y", "i:n", "i:l", "R:y", "o:y", "o:n", "o:ly", "iD:y", "iD:n", "iD:l", "oD:y", "oD:n", "oD:l"} \cup Objs
CtlFsal == {"i:y", "i:n", "i:l", "o:y", "o:n", "o:l", "iD:y", "iD:n", "oD:y", "oD:n", "r", "I", "J", "j"} \cup Objs
Dense == {"s:y", "s:ny", "s:lny", "S:nny", "C", "L", "H", "I", "J", "K"} \cup Objs
DensePlain == {"s", "S", "C", "L", "H", "I", "J", "K"} \cup Objs
\* multistep: I/E/Q/T/U initialize with the own starter / Euler / RK4 / Cash-Karp / Dormand-Prince
Adams == {"i", "o", "a", "R", "S", "r", "I", "E", "Q", "T", "U", "j"} \cup Objs
\* symplectic: p/r/q/u separate arguments and pairs of references; Verlet: e reset
Sympl == {"i", "a", "o", "p", "r", "q", "u", "R", "S"} \cup Objs
Verlet == {"i", "o", "r", "q", "R", "e", "I", "J", "j"} \cup Objs
Rosen == {"i", "o", "a", "e", "oe", "ae"} \cup Objs
Implicit == {"i:1", "i:2", "i:3", "i:5"} \cup Objs
\* extrapolation: verdicts per row (x: hopeless)
Bs == {"i", "i:ny", "i:nnny", "i:nnnnnnn", "i:nnx", "iD:nny", "iD:xxxx", "o", "o:nny", "o:nxx", "oD:ny", "oD:nnnnnn", "r"} \cup Objs
BsDense == {"s", "s:ny", "s:nnny", "s:xxy", "s:nnnnnny", "S:nnxnny", "C", "L", "H", "I", "J", "K"} \cup Objs
\* variable-step Adams: x the state moves; controlled: :verdict and order change, X start by a controlled stepper
Adaptive == {"i", "o", "a", "e", "oe", "ae", "r", "j", "x", "I", "E", "Q", "T"} \cup Objs
AdaptiveCtl == {"i:y+", "i:y-", "i:y=", "i:n", "o:y+", "o:y-", "o:n", "r", "j", "x", "I", "Q", "X:nyyyny"} \cup Objs
Corrector == {"i", "o", "a", "R"} \cup Objs
\* a second object is needed for some letters; some letters do nothing twice
Multi(h) == \E n \in 1..Len(h) : h[n] \in {"c", "N"}
Fits(h, l) ==
  /\ l \in {"k", "d", "w"} => Multi(h)
  /\ Len(h) > 0 /\ h[Len(h)] = l => l \notin {"r", "j", "z", "c", "w", "N", "d", "k", "C", "L", "H", "I", "E", "Q", "T", "U", "e"}
  /\ l = "c" => Cardinality({n \in 1..Len(h) : h[n] = "c"}) < 2
RECURSIVE Hist(_,_)
Hist(A, n) == IF n = 0 THEN {<<>>}
              ELSE LET H == Hist(A, n-1)
                   IN H \cup {Append(h, l) : h \in {g \in H : Len(g) = n-1}, l \in A}
Good(A, n) == {h \in Hist(A, n) : Len(h) > 0 /\ \A m \in 1..Len(h) : Fits(SubSeq(h, 1, m-1), h[m])}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.OUT, [plain |-> Good(Plain, MaxLen), err |-> Good(WithErr, MaxLen), fsal |-> Good(Fsal, MaxLen),
               ctl |-> Good(Ctl, MaxLen), ctlfsal |-> Good(CtlFsal, MaxLen),
               dense |-> Good(Dense, MaxLen), denseplain |-> Good(DensePlain, MaxLen),
               adaptive |-> Good(Adaptive, MaxLen), adaptivectl |-> Good(AdaptiveCtl, MaxLen),
               bs |-> Good(Bs, MaxLen), bsdense |-> Good(BsDense, MaxLen),
               adams |-> Good(Adams, MaxLen), implicit |-> Good(Implicit, MaxLen), rosen |-> Good(Rosen, MaxLen), corrector |-> Good(Corrector, MaxLen),
               sympl |-> Good(Sympl, MaxLen), verlet |-> Good(Verlet, MaxLen)])
=============================================================================
