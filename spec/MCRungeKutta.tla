---------------------------- MODULE MCRungeKutta ----------------------------
(* Every interleaving of calls a user can make on two derivative-carrying    *)
(* steppers (steps in all call forms, rejections, refusals, resets,          *)
(* initialisations, copies, jumps to another point followed by a reset) and  *)
(* on a dense-output stepper around one, over a three-element field with a   *)
(* fixed right-hand side.  User keeps a trajectory per object.               *)
EXTENDS RungeKutta
CONSTANT Kind            \* "step" "ctl" "dense"
VARIABLES pt, arg        \* where the user is with each object; the given derivative was exact
mcvars == <<cfg, mem, c, pt, arg>>
F(x, t) == << Add(Mul(x[1], x[1]), Add(t, 1)) >>
Tiny == [a |-> << <<>>, <<1>>, <<2, 1>> >>, b |-> << 2, 1, 0 >>, c |-> << 0, 1, 0 >>, e |-> << 1, 2, 1 >>,
         fsal |-> TRUE, order |-> 2, sorder |-> 2, eorder |-> 1]
\* (the last stage sits at the new point, whose time is t + dt: c[3] = 1)
TinyF == [Tiny EXCEPT !.c = << 0, 1, 1 >>]
FE == 0..(P-1)
Pts == {<< <<a>>, t >> : a \in FE, t \in FE}
MCInit == /\ Start([scheme |-> "tiny", tab |-> TinyF])
          /\ pt = (0 :> << <<1>>, 0 >>) /\ arg = TRUE
Ids == DOMAIN mem
Op == IF Kind = "step" THEN "call" ELSE "try"
OpenIt == \E id \in Ids, form \in {"i", "o", "iD", "oD"}, dt \in 1..(P-1) :
            LET x == pt[id][1] t == pt[id][2] d == F(x, t) IN
            /\ Open(Op, id, form, t, dt, x, IF Given(form) THEN d ELSE <<>>)
            /\ UNCHANGED <<pt, arg>>
StageTime(j) == Add(c.t, Mul(Tab.c[j], c.dt))
RhsIt == /\ c.op # "none" /\ Len(c.k) < S
         /\ LET j == Len(c.k) + 1
                x == IF c.op = "init" THEN c.x ELSE Step(c.x, c.dt, Tab.a[j], c.k)
                t == IF c.op = "init" THEN c.t ELSE StageTime(j)
            IN Rhs(x, t, F(x, t), 1)
         /\ UNCHANGED <<pt, arg>>
DoneIt == /\ c.op = "call" /\ Len(c.k) = S
          /\ Done(New, Err, IF InPlace(c.form) THEN <<>> ELSE c.x, IF Given(c.form) THEN c.k[S] ELSE <<>>)
          /\ pt' = [pt EXCEPT ![c.id] = <<New, Add(c.t, c.dt)>>] /\ UNCHANGED arg
LimIt == \E ok \in BOOLEAN, mx \in 1..(P-1) : Controlled /\ Limit(c.dt, ok, mx) /\ UNCHANGED <<pt, arg>>
ChkIt == \E ok \in BOOLEAN : Controlled /\ c.lim = "ok" /\ Len(c.k) = S /\ Check(c.x, c.k[1], Err, c.dt, ok, 0) /\ UNCHANGED <<pt, arg>>
AdjIt == \E n \in 1..(P-1) : Controlled /\ (Adjust("inc", c.dt, c.ev, Tab.sorder, n) \/ Adjust("dec", c.dt, c.ev, Tab.eorder, n)) /\ UNCHANGED <<pt, arg>>
TryIt == /\ c.op = "try"
         /\ \E ok \in BOOLEAN :
              LET t == IF ok THEN Add(c.t, c.dt) ELSE c.t IN
              /\ ok => Len(c.k) = S
              /\ TryDone(ok, t, IF c.lim = "no" THEN c.mx ELSE c.new, IF ok THEN New ELSE c.x,
                      IF InPlace(c.form) THEN <<>> ELSE c.x,
                      IF ~Given(c.form) THEN <<>> ELSE IF ok THEN c.k[S] ELSE c.d)
              /\ pt' = [pt EXCEPT ![c.id] = <<IF ok THEN New ELSE c.x, t>>] /\ UNCHANGED arg
JumpIt == \E id \in Ids, p \in Pts : Kind # "dense" /\ Reset(id) /\ pt' = [pt EXCEPT ![id] = p] /\ UNCHANGED arg
InitIt == \E id \in Ids : Kind # "dense" /\ InitSys(id, pt[id][1], pt[id][2]) /\ UNCHANGED <<pt, arg>>
InitdIt == InitSysDone /\ UNCHANGED <<pt, arg>>
CopyIt == \E a \in Ids, b \in 0..1 : a # b /\ Copy(a, b) /\ pt' = (b :> pt[a]) @@ pt /\ UNCHANGED arg
DropIt == \E b \in Ids : Cardinality(Ids) > 1 /\ Drop(b) /\ pt' = [o \in Ids \ {b} |-> pt[o]] /\ UNCHANGED arg
DInitIt == \E id \in Ids, p \in Pts, dt \in 1..(P-1) : Kind = "dense" /\ DenseInit(id, p[1], p[2], dt) /\ UNCHANGED <<pt, arg>>
DOpenIt == \E id \in Ids : Kind = "dense" /\ DenseOpen(id) /\ UNCHANGED <<pt, arg>>
DCloseIt == c.op = "dense" /\ Len(c.k) = S /\ DenseClose(c.t, Add(c.t, c.dt)) /\ UNCHANGED <<pt, arg>>
MCNext == \/ (Kind # "dense" /\ OpenIt) \/ RhsIt \/ DoneIt \/ LimIt \/ ChkIt \/ AdjIt \/ TryIt \/ JumpIt
          \/ InitIt \/ InitdIt \/ CopyIt \/ DropIt \/ DInitIt \/ DOpenIt \/ DCloseIt
MCSpec == MCInit /\ [][MCNext]_mcvars
----------------------------------------------------------------------------
(* What follows from the contract, for every history:                       *)
\* the first stage is the system at the start of the step, however obtained
StartExact == c.op \in {"call", "try", "dense"} /\ Len(c.k) > 0 => c.k[1] = F(c.x, c.t)
\* what is carried over is the system at the point the user is at
CarriedExact == c.op = "none" => \A o \in Ids : mem[o].has =>
   IF mem[o].live THEN mem[o].d = F(mem[o].x, mem[o].t) ELSE mem[o].d = F(pt[o][1], pt[o][2])
\* previous interval of a dense stepper is the last step
DenseInterval == \A o \in Ids : mem[o].live /\ mem[o].stepped =>
   /\ mem[o].k[1] = F(mem[o].xo, mem[o].to)
   /\ mem[o].x = Step(mem[o].xo, Sub(mem[o].t, mem[o].to), Tab.b, mem[o].k)
\* a call in progress never changes what other objects remember, nor the user's point
OthersUntouched == [][c.op # "none" => \A o \in Ids \ {c.id} : o \in DOMAIN mem' /\ mem'[o] = mem[o] /\ pt'[o] = pt[o]]_mcvars
RejectKeeps == [][c.op = "try" /\ c'.op = "none" /\ c.ver # "accept" => pt' = pt]_mcvars
=============================================================================
