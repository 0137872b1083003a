--------------------------- MODULE ImplicitEuler ----------------------------
(* Implicit Euler over the field: Newton iteration for                       *)
(*     x1 = x0 + h f(x1, t + h)                                              *)
(* from the starting point x0.  The system and its Jacobian are evaluated at *)
(* the end time and at the current iterate only; every correction solves     *)
(* (h J - 1) b = x0 - x + h f with a Jacobian of this step.  How often the    *)
(* Jacobian is renewed is left open; the iteration goes on exactly as long   *)
(* as the correction is above the accuracy (an open verdict here).           *)
(* Recordings in floating point give the residual of the accepted state.     *)
EXTENDS Linear, FiniteSets
VARIABLES cfg, mem, c
ievars == <<cfg, mem, c>>
None == [op |-> "none"]
IeStart(cf) == cfg = cf /\ mem = {0} /\ c = None
Open(id, x, t, dt, n) ==
  /\ c.op = "none" /\ id \in mem
  /\ c' = [op |-> "step", id |-> id, x0 |-> x, x |-> x, t |-> Add(t, dt), dt |-> dt, f |-> <<>>, inv |-> <<>>, left |-> n]
  /\ UNCHANGED <<cfg, mem>>
\* the correction is made as soon as value and Jacobian are there
Correct(x, f, inv) == VSub(x, MatVec(inv, TLCEval([i \in 1..Len(x) |-> Add(Sub(c.x0[i], x[i]), Mul(c.dt, f[i]))])))
Rhs(x, t, d, n) ==
  /\ c.op = "step" /\ c.f = <<>> /\ n = Len(c.x) /\ Len(d) = n
  /\ x = c.x /\ t = c.t
  /\ c' = (IF c.inv = <<>> THEN [c EXCEPT !.f = d] ELSE [c EXCEPT !.x = Correct(x, d, c.inv), !.left = @ - 1])
  /\ UNCHANGED <<cfg, mem>>
Matrix(J) == TLCEval([i \in 1..Len(J) |-> [k \in 1..Len(J) |-> Sub(Mul(c.dt, J[i][k]), IF i = k THEN 1 ELSE 0)]])
Jac(x, t, J, n1, n2) ==
  /\ c.op = "step" /\ x = c.x /\ t = c.t /\ n1 = Len(x) /\ n2 = Len(x)
  /\ \A inv \in {Inverse(Matrix(J))} :
       c' = (IF c.f = <<>> THEN [c EXCEPT !.inv = inv]
             ELSE [c EXCEPT !.inv = inv, !.x = Correct(x, c.f, inv), !.f = <<>>, !.left = @ - 1])
  /\ UNCHANGED <<cfg, mem>>
\* as many corrections as the verdicts asked for, at least one
Done(out) == c.op = "step" /\ c.f = <<>> /\ c.left = 0 /\ out = c.x /\ c' = None /\ UNCHANGED <<cfg, mem>>
----------------------------------------------------------------------------
(* Double precision: r = [n dimension, res residual in hundredths of the     *)
(* accuracy, evals evaluations, lin linear system, one residual after the    *)
(* step in units of 1e-12].  The systems contract by at least a half per     *)
(* correction and deviate from their linear part by less than the accuracy.  *)
Solved(r) == /\ c.op = "none"
             /\ r.res <= 100
             /\ r.evals <= 60
             /\ r.lin => r.one <= 100
             /\ UNCHANGED ievars
----------------------------------------------------------------------------
Size(id, n) == c.op = "none" /\ id \in mem /\ UNCHANGED ievars
Redim(id, n) == c.op = "none" /\ id \in mem /\ UNCHANGED ievars
Copy(a, b) == c.op = "none" /\ a \in mem /\ mem' = mem \cup {b} /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin mem /\ mem' = mem \cup {b} /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = mem \ {b} /\ UNCHANGED <<cfg, c>>
=============================================================================
