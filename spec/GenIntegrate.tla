---------------------------- MODULE GenIntegrate ----------------------------
(* The scenarios replayed into the real code: every combination of function, *)
(* stepper kind, direction, interval shape and (short) stepper behaviour.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

CONSTANTS MaxSpan, MaxD, MaxN, ScriptLen

U == 64     \* ticks per unit

Scripts(c) ==
  IF c = "plain" THEN { <<>> }
  ELSE UNION { [1..k -> (IF c = "controlled" THEN {2,3,4} ELSE {2,4,5})] : k \in 0..ScriptLen }

Base == { r \in [ fn : {"const","adaptive"}, cat : {"plain","controlled","dense"},
                  obs : BOOLEAN, g : {1,-1}, sp : -1..MaxSpan, dd : 1..MaxD ] :
            TRUE }
Const == { [fn |-> r.fn, cat |-> r.cat, obs |-> r.obs, t0 |-> 2*U, x0 |-> 5*U,
            t1 |-> 2*U + r.g*r.sp*U, d |-> r.g*r.dd*U, n |-> 0, times |-> <<>>] : r \in Base }
NSteps == { [fn |-> "nsteps", cat |-> c, obs |-> o, t0 |-> -U, x0 |-> U, t1 |-> 0,
             d |-> g*dd*U, n |-> nn, times |-> <<>>] :
             c \in {"plain","controlled","dense"}, o \in BOOLEAN, g \in {1,-1},
             dd \in 1..2, nn \in 0..MaxN }
TimeSeqs == { <<>>, <<0>>, <<0,1>>, <<0,3>>, <<0,0,1>>, <<0,1,1,2>>, <<1,2,3,4>>, <<1,4,5>>,
              <<0,2,7>>, <<0,5,5>>, <<0,1,3,3,3,4>> }
Times == { [fn |-> "times", cat |-> c, obs |-> TRUE, t0 |-> IF ts = <<>> THEN 0 ELSE g*ts[1]*U, x0 |-> 0, t1 |-> 0,
            d |-> g*dd*U, n |-> 0, times |-> [k \in 1..Len(ts) |-> g*ts[k]*U]] :
            c \in {"plain","controlled","dense"}, g \in {1,-1}, dd \in 1..MaxD, ts \in TimeSeqs }

\* the replayed scenarios are all pairs of a call and a script of its category
Cats == {"plain","controlled","dense"}
ASSUME JsonSerialize(IOEnv.OUT,
  [ calls |-> SetToSeq(Const) \o SetToSeq(NSteps) \o SetToSeq(Times),
    scripts |-> [ c \in Cats |-> SetToSeq(Scripts(c)) ] ])

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
