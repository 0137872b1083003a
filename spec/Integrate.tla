------------------------------ MODULE Integrate ------------------------------
(***************************************************************************)
(* Contract of the integrate functions (properties C01-C05).               *)
(*                                                                         *)
(* Time is an integer number of ticks.  The ODE is x' = 1, so the exact    *)
(* state at time t is X(t); a stepper of any kind that advances the state  *)
(* by dt when it steps by dt is exact, and an observed (x,t) pair tells    *)
(* whether the state handed to the observer is the state OF THAT TIME.     *)
(* Every action is one call made by the integrate function: an observer    *)
(* call, a stepper call, or the return / exception.  The outcome of a step *)
(* (accept/reject, next step size) is the environment's choice.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS FailLo, FailHi     \* window for the failed-step guard

VARIABLES
  cfg,     \* the arguments of the call
  ct, pt,  \* current time of the trajectory, start of the last step
  prop,    \* step size proposed for the next step
  nobs,    \* observer calls so far
  acc,     \* accepted steps so far
  fails,   \* consecutive rejected attempts
  since,   \* accepted steps since the last observer call
  inited,  \* dense output: initialize() was called
  status   \* "run" | "ret" | "throw"

vars == <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status>>

Abs(a) == IF a < 0 THEN -a ELSE a
Dir    == IF cfg.d > 0 THEN 1 ELSE -1
LE(a,b) == Dir*a <= Dir*b
LT(a,b) == Dir*a <  Dir*b
X(t)   == cfg.x0 + t - cfg.t0

Adapt  == cfg.fn = "adaptive"

GridN  == CASE cfg.fn = "nsteps" -> cfg.n
            [] cfg.fn = "const"  -> IF LE(cfg.t0, cfg.t1)
                                    THEN (Dir*(cfg.t1 - cfg.t0)) \div Abs(cfg.d)
                                    ELSE 0
            [] OTHER -> 0

NTargets   == IF cfg.fn = "times" THEN Len(cfg.times) ELSE GridN + 1
Target(k)  == IF cfg.fn = "times" THEN cfg.times[k] ELSE cfg.t0 + (k-1)*cfg.d

\* where the trajectory has to be when the call returns
EndT   == CASE Adapt -> IF LT(cfg.t0, cfg.t1) THEN cfg.t1 ELSE cfg.t0
            [] cfg.fn = "times"  -> IF cfg.times = <<>> THEN cfg.t0 ELSE cfg.times[Len(cfg.times)]
            [] OTHER -> cfg.t0 + GridN*cfg.d

\* a point no step may pass
Limit  == CASE Adapt -> EndT
            [] cfg.cat = "dense" -> IF cfg.fn = "const"
                                    THEN (IF LT(cfg.t0, cfg.t1) THEN cfg.t1 ELSE cfg.t0)
                                    ELSE EndT
            [] cfg.fn = "times"  -> IF nobs < NTargets THEN Target(nobs+1) ELSE ct
            [] OTHER -> LET k == (Dir*(ct - cfg.t0)) \div Abs(cfg.d) + 1
                        IN IF k > GridN THEN ct ELSE cfg.t0 + k*cfg.d

\* size of the next attempted step: the proposal, shortened to the limit
Attempt == LET room == Limit - ct
               want == IF cfg.cat = "plain" THEN cfg.d ELSE prop
           IN IF Abs(want) > Abs(room) THEN room ELSE want

\* every observation due at or before the current point has been made
ObservedUpTo ==
  \/ ~cfg.obs
  \/ /\ Adapt
     /\ nobs = acc + 1
  \/ /\ ~Adapt
     /\ nobs = NTargets \/ LT(ct, Target(nobs+1))

\* dense output: a point inside the last interval has to be observed before
\* the interval is lost (a point at its end is the start of the next one)
NoPointLost ==
  \/ ~cfg.obs
  \/ IF Adapt THEN nobs = acc + 1
     ELSE nobs = NTargets \/ LE(ct, Target(nobs+1))

CheckerTripped == cfg.chk > 0 /\ since > cfg.chk

CanStep == /\ status = "run"
           /\ Attempt # 0
           /\ IF cfg.cat = "dense" THEN NoPointLost ELSE ObservedUpTo
           /\ ~CheckerTripped
           /\ fails < FailHi

TypeOK == /\ status \in {"run", "ret", "throw"}
          /\ nobs \in Nat /\ acc \in Nat /\ fails \in Nat /\ since \in Nat
          /\ inited \in BOOLEAN

Start(c) ==
  /\ cfg = c
  /\ ct = c.t0 /\ pt = c.t0 /\ prop = c.d
  /\ nobs = 0 /\ acc = 0 /\ fails = 0 /\ since = 0
  /\ inited = FALSE
  /\ status = "run"

---------------------------------------------------------------------------
(* observer( x , t ) *)
Observe(x, t) ==
  /\ status = "run" /\ cfg.obs /\ ~CheckerTripped
  /\ fails = 0
  /\ x = X(t)
  /\ IF Adapt
     THEN /\ nobs = acc
          /\ t = ct
     ELSE /\ nobs < NTargets
          /\ t = Target(nobs+1)
          /\ IF cfg.cat = "dense"
             THEN /\ LE(pt, t) /\ LE(t, ct)
             ELSE t = ct
  /\ cfg.cat = "dense" => inited
  /\ nobs' = nobs + 1
  /\ since' = 0
  /\ UNCHANGED <<cfg, ct, pt, prop, acc, fails, inited, status>>

(* plain stepper: do_step( x , t , h ) *)
PlainStep(x, t, h) ==
  /\ cfg.cat = "plain"
  /\ CanStep
  /\ t = ct /\ x = X(ct) /\ h = Attempt
  /\ ct' = ct + h /\ pt' = ct
  /\ acc' = acc + 1 /\ since' = since + 1
  /\ UNCHANGED <<cfg, prop, nobs, fails, inited, status>>

(* controlled stepper: try_step( x , t , h ) answering ok and new step size *)
TryStep(x, t, h, ok, new) ==
  /\ cfg.cat = "controlled"
  /\ CanStep
  /\ t = ct /\ x = X(ct) /\ h = Attempt
  /\ IF ok
     THEN /\ ct' = ct + h /\ pt' = ct
          /\ acc' = acc + 1 /\ since' = since + 1
          /\ fails' = 0
          /\ prop' = IF cfg.fn = "times" /\ Abs(prop) > Abs(new) THEN prop ELSE new
     ELSE /\ fails' = fails + 1
          /\ prop' = new
          /\ UNCHANGED <<ct, pt, acc, since>>
  /\ UNCHANGED <<cfg, nobs, inited, status>>

(* dense output stepper: initialize( x , t , h ) *)
Init(x, t, h) ==
  /\ cfg.cat = "dense" /\ status = "run"
  /\ t = ct /\ x = X(ct)
  /\ IF ~inited THEN h = cfg.d
     ELSE /\ h = Limit - ct              \* only to end exactly at the limit
          /\ Abs(h) <= Abs(prop) \/ h = 0
  /\ inited' = TRUE
  /\ prop' = h
  /\ UNCHANGED <<cfg, ct, pt, nobs, acc, fails, since, status>>

(* dense output stepper: do_step() moving from t to t2, proposing new *)
DenseStep(t, t2, new) ==
  /\ cfg.cat = "dense" /\ inited
  /\ CanStep
  /\ t = ct
  /\ Attempt = prop                       \* the proposal fits below the limit
  /\ LT(ct, t2) /\ Abs(t2 - ct) <= Abs(prop)
  /\ ct' = t2 /\ pt' = ct /\ prop' = new
  /\ acc' = acc + 1 /\ since' = since + 1
  /\ UNCHANGED <<cfg, nobs, fails, inited, status>>

(* dense output stepper: calc_state( t ) *)
Calc(t) ==
  /\ cfg.cat = "dense" /\ inited /\ status = "run"
  /\ acc > 0                              \* there is an interval to interpolate
  /\ LE(pt, t) /\ LE(t, ct)
  /\ UNCHANGED vars

(* the integrate function returns v and leaves xf in the caller's state *)
Return(v, xf) ==
  /\ status = "run" /\ ~CheckerTripped /\ fails = 0
  /\ cfg.obs => nobs = (IF Adapt THEN acc + 1 ELSE NTargets)
  /\ IF cfg.cat = "dense" /\ cfg.fn = "const"
     THEN LE(EndT, ct) ELSE ct = EndT
  /\ v = (IF cfg.fn = "nsteps" THEN EndT ELSE acc)
  /\ xf = X(EndT)
  /\ status' = "ret"
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited>>

(* step size adjustment gives up *)
ThrowFail ==
  /\ status = "run" /\ cfg.cat = "controlled"
  /\ fails >= FailLo
  /\ status' = "throw"
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited>>

(* the user's checker complains: more than chk steps without observation.  *)
(* A dense-output step may be refused before it is made.                   *)
ThrowMax ==
  /\ status = "run" /\ cfg.chk > 0
  /\ IF cfg.cat = "dense" THEN CheckerTripped \/ (since >= cfg.chk /\ CanStep) ELSE CheckerTripped
  /\ status' = "throw"
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited>>

---------------------------------------------------------------------------
(* What the contract implies (checked on the exhaustive model)             *)
NeverBeyond  == LE(ct, Limit) \/ ct = cfg.t0
Contiguous   == LE(pt, ct) /\ LE(cfg.t0, pt)
ObsBounded   == ~Adapt => nobs <= NTargets
EndsAtEnd    == status = "ret" /\ Adapt => ct = EndT
AllObserved  == status = "ret" /\ cfg.obs /\ ~Adapt => nobs = NTargets
GuardBounded == fails <= FailHi /\ (cfg.chk > 0 => since <= cfg.chk + 1)
=============================================================================
