------------------------------ MODULE MCPassBy ------------------------------
(* How the library hands an argument down: entry points and internal routines  *)
(* take it by value (a wrapper stays a wrapper), unwrap it where it is used,    *)
(* and hand what they unwrapped on by plain reference only.  Any such program   *)
(* keeps the contract; one that hands the unwrapped object on by value          *)
(* (Careless) does not, which is what the recorded ledgers have to show.        *)
EXTENDS PassBy
CONSTANTS Depth, Careless
VARIABLES mode, level, plain, own, led
\* plain: the current routine holds a plain reference; own: to the caller's object
vars == <<mode, level, plain, own, led>>
Zero == [copies |-> 0, own |-> 0, other |-> 0]
Init == mode \in Modes /\ level = 0 /\ plain = FALSE /\ own = TRUE /\ led = Zero
Down == /\ level < Depth /\ ~plain /\ level' = level + 1
        /\ IF mode = "v" THEN own' = FALSE /\ led' = [led EXCEPT !.copies = @ + 1] ELSE UNCHANGED <<own, led>>
        /\ UNCHANGED <<mode, plain>>
\* the first level is the entry point itself: its parameter is by value
Unwrap == level > 0 /\ ~plain /\ plain' = TRUE /\ UNCHANGED <<mode, level, own, led>>
DownPlain == /\ level < Depth /\ plain /\ level' = level + 1
             /\ IF Careless THEN own' = FALSE /\ led' = [led EXCEPT !.copies = @ + 1] ELSE UNCHANGED <<own, led>>
             /\ UNCHANGED <<mode, plain>>
Call == /\ plain /\ Total(led) < 3
        /\ led' = IF own THEN [led EXCEPT !.own = @ + 1] ELSE [led EXCEPT !.other = @ + 1]
        /\ UNCHANGED <<mode, level, plain, own>>
Next == Down \/ Unwrap \/ DownPlain \/ Call
Contract == Kept(mode, led)
ASSUME LET f == Fanout(3, <<<<10, 1>>, <<20, 2>>>>) IN
         f = <<<<1,10,1>>, <<2,10,1>>, <<3,10,1>>, <<1,20,2>>, <<2,20,2>>, <<3,20,2>>>>
=============================================================================
