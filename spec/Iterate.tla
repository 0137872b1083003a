------------------------------- MODULE Iterate -------------------------------
(***************************************************************************)
(* Contract of the iterators (property C06): walking a const-step, n-step, *)
(* adaptive or times iterator makes the points of the corresponding        *)
(* integrate function appear one after the other.  The vocabulary (targets,*)
(* direction, exact state X(t)) is that of Integrate.                      *)
(*                                                                         *)
(* An iterator stands in front of a point ("at"), is being advanced        *)
(* ("inc"), has just been made or advanced ("new": not yet compared with   *)
(* the end), or has been found equal to the end ("end").                   *)
(***************************************************************************)
EXTENDS Integrate, FiniteSets

VARIABLES phase,   \* see above
          seen,    \* the point in front of the iterator was looked at
          cands,   \* step sizes the next fresh attempt may be made from
          retry    \* step size proposed by the last rejection, or 0

ivars == <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status, phase, seen, cands, retry>>

IStart(c) ==
  /\ Start(c)
  /\ phase = "new" /\ seen = FALSE /\ cands = {c.d} /\ retry = 0

\* an interval whose end lies before its start has no points
NoPoints == CASE cfg.fn = "times"  -> cfg.times = <<>>
              [] cfg.fn = "nsteps" -> FALSE
              [] OTHER             -> LT(cfg.t1, cfg.t0)

\* all points have been visited
Exhausted == \/ NoPoints
             \/ IF Adapt THEN ct = EndT /\ nobs = acc + 1 ELSE nobs = NTargets

\* the trajectory has reached the point to be shown next
Reached == IF Adapt THEN nobs = acc
           ELSE IF cfg.cat = "dense"
                THEN LE(pt, Target(nobs+1)) /\ LE(Target(nobs+1), ct)
                ELSE ct = Target(nobs+1)

(* iterator == end *)
Compare(b) ==
  /\ phase \in {"new", "at", "end"}
  /\ IF phase = "new" THEN /\ b = Exhausted
                           /\ (IF b THEN TRUE ELSE Reached)
                           /\ phase' = (IF b THEN "end" ELSE "at")
                           /\ seen' = FALSE
     ELSE b = (phase = "end") /\ UNCHANGED <<phase, seen>>
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status, cands, retry>>

(* *iterator : shows the point, as often as asked, and changes nothing *)
Deref(x, t) ==
  /\ phase = "at"
  /\ IF seen
     THEN /\ t = (IF Adapt THEN ct ELSE Target(nobs))
          /\ x = X(t) /\ UNCHANGED <<nobs, since>>
     ELSE Observe(x, t)
  /\ seen' = TRUE
  /\ UNCHANGED <<cfg, ct, pt, prop, acc, fails, inited, status, phase, cands, retry>>

(* ++iterator; a point that was not looked at counts as visited *)
Advance ==
  /\ phase = "at"
  /\ phase' = "inc" /\ seen' = FALSE
  /\ nobs' = IF seen THEN nobs ELSE nobs + 1
  /\ UNCHANGED <<cfg, ct, pt, prop, acc, fails, since, inited, status, cands, retry>>

(* ++iterator has returned *)
Advanced ==
  /\ phase = "inc" /\ retry = 0
  /\ phase' = "new"
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, status, seen, cands, retry>>

\* steps are made only while advancing, and only if there is a next point
\* that is not reached yet
MayStep == /\ phase = "inc"
           /\ IF Adapt THEN nobs = acc + 1 /\ ct # EndT
              ELSE nobs < NTargets /\ LT(ct, Target(nobs+1))

IPlain(x, t, h) ==
  /\ MayStep
  /\ PlainStep(x, t, h)
  /\ UNCHANGED <<phase, seen, cands, retry>>

Room == (IF Adapt THEN EndT ELSE Target(nobs+1)) - ct
Clip(p) == IF Abs(p) > Abs(Room) THEN Room ELSE p
MaxA(a, b) == IF Abs(a) > Abs(b) THEN a ELSE b

ITry(x, t, h, ok, new) ==
  /\ cfg.cat = "controlled" /\ MayStep
  /\ t = ct /\ x = X(ct)
  /\ LET fit == IF retry # 0 THEN {retry} ELSE {p \in cands : Clip(p) = h}
         cut == {p \in fit : p # h}                \* proposals shortened to reach the point
     IN /\ fit # {}
        /\ retry # 0 => h = Clip(retry)
        /\ IF ok
           THEN /\ ct' = ct + h /\ pt' = ct /\ acc' = acc + 1 /\ since' = since + 1
                /\ fails' = 0 /\ retry' = 0
                /\ cands' = IF retry # 0
                            THEN (IF cfg.fn = "times" THEN cands ELSE {}) \cup {new}
                            ELSE IF cut = {} \/ Adapt THEN {new}
                            ELSE cut \cup {MaxA(p, new) : p \in cut}
           ELSE /\ fails' = fails + 1 /\ fails' <= FailHi
                /\ retry' = new
                /\ cands' = IF retry = 0 /\ cut = {} THEN {new} ELSE cands \cup {new}
                /\ UNCHANGED <<ct, pt, acc, since>>
  /\ UNCHANGED <<cfg, prop, nobs, inited, status, phase, seen>>

\* initialize( x , t , h ): when the iterator is made, or to end exactly at the end
IInit(x, t, h) ==
  /\ cfg.cat = "dense"
  /\ t = ct /\ x = X(ct)
  /\ IF phase = "new" THEN acc = 0 /\ h = cfg.d /\ ~NoPoints
     ELSE /\ MayStep /\ inited
          /\ h = EndT - ct /\ Abs(h) <= Abs(prop)
  /\ inited' = TRUE /\ prop' = h
  /\ UNCHANGED <<cfg, ct, pt, nobs, acc, fails, since, status, phase, seen, cands, retry>>

IDense(t, t2, new) ==
  /\ cfg.cat = "dense" /\ inited /\ MayStep
  /\ t = ct
  /\ LT(ct, t2) /\ Abs(t2 - ct) <= Abs(prop)
  /\ cfg.fn \in {"adaptive", "times"} => LE(t2, EndT)
  /\ ct' = t2 /\ pt' = ct /\ prop' = new
  /\ acc' = acc + 1 /\ since' = since + 1
  /\ UNCHANGED <<cfg, nobs, fails, inited, status, phase, seen, cands, retry>>

ICalc(t) ==
  /\ cfg.cat = "dense" /\ inited /\ phase = "inc"
  /\ acc > 0 /\ LE(pt, t) /\ LE(t, ct)
  /\ UNCHANGED ivars

(* the traversal is over: the caller's state, and what became of the       *)
(* stepper that was passed (number of calls made on the caller's object)   *)
Finish(x, how, calls, tm) ==
  /\ phase = "end"
  /\ (cfg.cat = "dense" /\ Adapt) \/ x = X(IF NoPoints THEN cfg.t0 ELSE EndT)
  /\ IF how = "ref"
     THEN /\ cfg.cat # "dense" => calls >= acc
          /\ cfg.cat = "dense" => calls = acc /\ (inited => tm = ct)
          /\ cfg.cat = "plain" => calls = acc
     ELSE calls = 0
  /\ status' = "ret"
  /\ UNCHANGED <<cfg, ct, pt, prop, nobs, acc, fails, since, inited, phase, seen, cands, retry>>
=============================================================================
