---------------------------- MODULE MCIntegrate ----------------------------
(* Exhaustive exploration of the contract with an arbitrary stepper.        *)
EXTENDS Integrate, TLC, FiniteSets

CONSTANT MaxSpan, MaxD, MaxN

S == 4      \* ticks per unit: step sizes may be halved twice

Cfgs ==
  { [fn |-> f, cat |-> c, obs |-> o, chk |-> k, t0 |-> 3*S, x0 |-> 2,
     t1 |-> 3*S + g*sp*S, d |-> g*dd*S, n |-> nn, times |-> <<0>>] :
      f \in {"const","adaptive","nsteps"}, c \in {"plain","controlled","dense"},
      o \in BOOLEAN, k \in {0, 2}, g \in {1,-1}, sp \in -1..MaxSpan,
      dd \in 1..MaxD, nn \in 0..MaxN }
Cfg2 == { c \in Cfgs :
            /\ c.fn = "nsteps" => c.t1 = c.t0
            /\ c.fn # "nsteps" => c.n = 0
            /\ c.chk > 0 => c.fn # "adaptive" /\ c.obs }
TimesCfgs ==
  { [fn |-> "times", cat |-> c, obs |-> TRUE, chk |-> k, t0 |-> g*ts[1]*S, x0 |-> 2,
     t1 |-> 0, d |-> g*dd*S, n |-> 0,
     times |-> [i \in 1..Len(ts) |-> g*ts[i]*S]] :
      c \in {"plain","controlled","dense"}, k \in {0,2}, g \in {1,-1},
      dd \in 1..MaxD,
      ts \in { <<0>>, <<1,2>>, <<0,1,1,3>>, <<2,2,3>>, <<0,3,4>> } }

MCInit == \E c \in Cfg2 \cup TimesCfgs : Start(c)

\* what an arbitrary stepper may answer
News(h) == { Dir*n : n \in { 1, Abs(h) \div 2, Abs(h), 2*Abs(h) } \ {0} }
Cap(n)  == Abs(n) <= 2*MaxD*S

MCNext ==
  \/ \E k \in {nobs+1} : k <= NTargets /\ ~Adapt /\ Observe(X(Target(k)), Target(k))
  \/ Adapt /\ Observe(X(ct), ct)
  \/ PlainStep(X(ct), ct, Attempt)
  \/ \E n \in News(Attempt) : Cap(n) /\ TryStep(X(ct), ct, Attempt, TRUE, n)
  \/ \E n \in News(Attempt) : Abs(n) < Abs(Attempt) /\ TryStep(X(ct), ct, Attempt, FALSE, n)
  \/ Init(X(ct), ct, IF inited THEN Limit - ct ELSE cfg.d)
  \/ \E n \in News(prop) : \E h \in News(prop) :
       Cap(n) /\ Abs(h) <= Abs(prop) /\ DenseStep(ct, ct + h, n)
  \/ Return(IF cfg.fn = "nsteps" THEN EndT ELSE acc, X(EndT))
  \/ ThrowFail
  \/ ThrowMax
  \/ status # "run" /\ UNCHANGED vars

\* an accepting stepper makes progress, so weak fairness suffices to finish;
\* rejections are bounded by FailHi
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
=============================================================================
