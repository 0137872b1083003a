--------------------------- MODULE AdaptiveAdams ----------------------------
(* Variable-step, variable-order Adams-Bashforth-Moulton over the field.     *)
(* The method remembers the derivatives at the last points of the solution.  *)
(* With order q it integrates the polynomial through the last q of them      *)
(* (predictor), evaluates there, integrates the polynomial through that one  *)
(* and the same q (corrector), and evaluates once more for the history; the  *)
(* error estimate is the difference of the two.  Nothing is said about how   *)
(* the integrals are found.                                                  *)
(*  plain stepper: order grows by one per step up to cfg.n                   *)
(*  controlled: step and order are chosen by adjusters (arguments checked)   *)
EXTENDS Tableaux, FiniteSets
VARIABLES cfg, mem, c
aavars == <<cfg, mem, c>>
N == cfg.n
None == [op |-> "none"]
Fresh == [pts |-> <<>>, q |-> 1]
AStart(cf) == cfg = cf /\ mem = (0 :> Fresh) /\ c = None
Put(id, m) == (id :> m) @@ mem
----------------------------------------------------------------------------
PolyMulLin(p, r) == TLCEval([m \in 1..(Len(p)+1) |-> Sub(IF m > 1 THEN p[m-1] ELSE 0, IF m <= Len(p) THEN Mul(r, p[m]) ELSE 0)])
PolyProd(rs) == LET f[m \in 0..Len(rs)] == IF m = 0 THEN <<1>> ELSE PolyMulLin(f[m-1], rs[m]) IN f[Len(rs)]
Integral(p, h) == LET f[m \in 0..Len(p)] == IF m = 0 THEN 0 ELSE Add(f[m-1], Mul(p[m], Div(Pow(h, m), M(m)))) IN f[Len(p)]
ProdDiff(a, rs) == LET f[m \in 0..Len(rs)] == IF m = 0 THEN 1 ELSE Mul(f[m-1], Sub(a, rs[m])) IN f[Len(rs)]
Without(ns, k) == SubSeq(ns, 1, k-1) \o SubSeq(ns, k+1, Len(ns))
\* weights of the integral over [t, t+h] of the polynomial through values at the nodes
Weights(nodes, t, h) ==
  LET ns == TLCEval([k \in 1..Len(nodes) |-> Sub(nodes[k], t)]) IN
  TLCEval([k \in 1..Len(ns) |-> Div(Integral(PolyProd(Without(ns, k)), h), ProdDiff(ns[k], Without(ns, k)))])
Times(ps) == [k \in 1..Len(ps) |-> ps[k].t]
Vals(ps) == [k \in 1..Len(ps) |-> ps[k].f]
Quadrature(x, ps, t, h) == Step(x, 1, Weights(Times(ps), t, h), Vals(ps))
Newest(ps, k) == SubSeq(ps, 1, k)
Push(p, ps) == LET g == << p >> \o ps IN IF Len(g) > N + 1 THEN SubSeq(g, 1, N + 1) ELSE g
\* modified divided difference of order k of the newest k+1 points
Diff(ps, k, n) ==
  LET ts == Times(Newest(ps, k+1)) up == ProdDiff(ts[1], SubSeq(ts, 2, k+1))
  IN Incr([i \in 1..n |-> 0], up, TLCEval([j \in 1..(k+1) |-> Inv(ProdDiff(ts[j], Without(ts, j)))]), Vals(Newest(ps, k+1)))
\* error coefficients of the fixed-step method, order 0..8
Gs == TLCEval(<< 1, Q(-1,2), Q(-1,12), Q(-1,24), Q(-19,720), Q(-3,160), Q(-863,60480), Q(-275,24192), Div(M(-33953), M(3628800)) >>)
----------------------------------------------------------------------------
\* stage: "first" (start derivative needed), "pred", "adj" (controlled), "last", "ord" (controlled), "end"
Attempt(op, id, form, t, dt, x, m, left) ==
  [op |-> op, id |-> id, form |-> form, t |-> t, dt |-> dt, x |-> x, x0 |-> x, pts |-> m.pts, q |-> m.q, left |-> left,
   stage |-> IF m.pts = <<>> THEN "first" ELSE "pred", p |-> <<>>, y |-> <<>>, d |-> <<>>, ndt |-> dt, ok |-> TRUE, k |-> <<>>]
Open(op, id, form, t, dt, x) ==
  /\ c.op = "none" /\ id \in DOMAIN mem
  /\ c' = Attempt(op, id, form, t, dt, x, mem[id], 1)
  /\ UNCHANGED <<cfg, mem>>
\* own starting procedure: n steps of the n-th part from nothing
OpenInit(id, t, dt, x) ==
  /\ c.op = "none" /\ c' = Attempt("step", id, "init", t, Div(dt, M(N)), x, Fresh, N)
  /\ UNCHANGED <<cfg, mem>>
\* with another stepper
OpenWith(id, start, t, dt, x) ==
  /\ c.op = "none"
  /\ c' = [Attempt("with", id, "init", t, Div(dt, M(N)), x, Fresh, N) EXCEPT !.stage = "stages"] @@ [start |-> start]
  /\ UNCHANGED <<cfg, mem>>
\* with a controlled stepper
OpenControlled(id, t, dt, x) ==
  /\ c.op = "none" /\ c' = [Attempt("ctlinit", id, "init", t, dt, x, Fresh, N) EXCEPT !.stage = "tries"]
  /\ UNCHANGED <<cfg, mem>>
Starter == Scheme(c.start)
Point(t, f) == [t |-> t, f |-> f]
Predicted == Quadrature(c.x, Newest(c.pts, c.q), c.t, c.dt)
Corrected(d) == Quadrature(c.x, << Point(Add(c.t, c.dt), d) >> \o Newest(c.pts, c.q), c.t, c.dt)
Grown(q) == IF q < N THEN q + 1 ELSE q
Rhs(x, t, d, n) ==
  /\ c.op # "none" /\ n = Len(c.x) /\ Len(d) = n
  /\ CASE c.stage = "first" ->
            /\ x = c.x /\ t = c.t
            /\ c' = [c EXCEPT !.pts = << Point(t, d) >>, !.stage = "pred"]
       [] c.stage = "pred" ->
            /\ t = Add(c.t, c.dt) /\ x = Predicted
            /\ c' = [c EXCEPT !.p = x, !.d = d, !.y = Corrected(d), !.stage = IF c.op = "try" THEN "adj" ELSE "last"]
       [] c.stage = "last" ->
            /\ t = Add(c.t, c.dt) /\ x = c.y
            /\ LET ps == Push(Point(t, d), c.pts) IN
               IF c.op = "try" THEN c' = [c EXCEPT !.pts = ps, !.stage = "ord"]
               ELSE IF c.left = 1 THEN c' = [c EXCEPT !.pts = ps, !.q = Grown(@), !.left = 0, !.stage = "end", !.t = t]
               ELSE c' = [c EXCEPT !.pts = ps, !.q = Grown(@), !.left = @ - 1, !.t = t, !.x = c.y, !.stage = "pred"]
       [] c.stage = "stages" ->     \* stage j of the starting method; its first is the derivative at the last point
            LET j == Len(c.k) + 1 ks == Append(c.k, d) IN
            /\ c.left > 0 \/ j = 1
            /\ t = Add(c.t, Mul(Starter.c[j], c.dt))
            /\ x = Step(c.x, c.dt, Starter.a[j], c.k)
            /\ LET c1 == IF j = 1 /\ c.left < N THEN [c EXCEPT !.pts = Push(Point(t, d), @)] ELSE c IN
               c' = IF j = 1 /\ c.left = 0 THEN [c1 EXCEPT !.stage = "end", !.y = c.x, !.q = N]
                    ELSE IF j = Len(Starter.b) THEN [c1 EXCEPT !.x = Step(c.x, c.dt, Starter.b, ks), !.t = Add(@, c.dt), !.k = <<>>, !.left = @ - 1]
                    ELSE [c1 EXCEPT !.k = ks]
       [] c.stage = "moved" ->
            /\ x = c.x /\ t = c.t
            /\ c' = [c EXCEPT !.pts = Push(Point(t, d), @), !.left = @ - 1, !.q = N, !.y = c.x, !.stage = IF c.left = 1 THEN "end" ELSE "tries"]
       [] OTHER -> FALSE
  /\ UNCHANGED <<cfg, mem>>
\* the controlled starter takes an attempt
Other(x, t, dt, ok, xn, tn, dtn) ==
  /\ c.op = "ctlinit" /\ c.stage = "tries" /\ c.left > 0
  /\ x = c.x /\ t = c.t /\ dt = c.dt
  /\ c' = [c EXCEPT !.x = xn, !.t = tn, !.dt = dtn, !.stage = IF ok THEN "moved" ELSE "tries"]
  /\ UNCHANGED <<cfg, mem>>
Err == VSub(c.y, c.p)
AdjustStep(q, dt, e, x, d, ndt, ok) ==
  /\ c.op = "try" /\ c.stage = "adj"
  /\ q = c.q /\ dt = c.dt /\ e = Err /\ x = c.y /\ d = c.d
  /\ c' = [c EXCEPT !.ndt = ndt, !.ok = ok, !.stage = IF ok THEN "last" ELSE "end"]
  /\ UNCHANGED <<cfg, mem>>
Estimate(k) == VScale(Mul(c.ndt, Gs[k+1]), Diff(c.pts, k, Len(c.x)))
AdjustOrder(q, init, e, nq) ==
  /\ c.op = "try" /\ c.stage = "ord"
  /\ q = c.q /\ init = Len(c.pts) - 1
  /\ e[3] = Estimate(q)
  /\ q > 1 => e[2] = Estimate(q - 1)
  /\ q > 2 => e[1] = Estimate(q - 2)
  \* without an estimate for the next order there is nothing old in its place
  /\ e[4] = IF q < N /\ Len(c.pts) >= q + 2 THEN Estimate(q + 1) ELSE [m \in 1..Len(e[3]) |-> 0]
  /\ c' = [c EXCEPT !.q = nq, !.stage = "end"]
  /\ UNCHANGED <<cfg, mem>>
\* err: <<>> if not asked for; in: input afterwards (out of place)
Done(out, err, in) ==
  /\ c.op \in {"step", "with", "ctlinit"} /\ c.stage = "end"
  /\ out = c.y /\ (err # <<>> => err = Err)
  /\ (c.form = "o" => in = c.x0)
  /\ mem' = Put(c.id, [pts |-> c.pts, q |-> c.q])
  /\ c' = None /\ UNCHANGED cfg
Started(out, t, dt) ==
  /\ c.form = "init" /\ c.stage = "end" /\ out = c.y /\ t = c.t /\ (c.op = "ctlinit" => dt = c.dt)
  /\ mem' = Put(c.id, [pts |-> c.pts, q |-> c.q])
  /\ c' = None /\ UNCHANGED cfg
Tried(ok, x, t, dt, in) ==
  /\ c.op = "try" /\ c.stage = "end" /\ ok = c.ok /\ dt = c.ndt
  /\ IF ok THEN x = c.y /\ t = Add(c.t, c.dt) ELSE t = c.t /\ (c.form = "i" => x = c.x)
  /\ (c.form = "o" => in = c.x)
  /\ mem' = (IF ok THEN Put(c.id, [pts |-> c.pts, q |-> c.q]) ELSE mem)
  /\ c' = None /\ UNCHANGED cfg
\* orders a custom adjuster may choose: as many points as there are
Allowed(pts) == 1..(IF Len(pts) < N THEN Len(pts) ELSE N)
Reset(id) == c.op = "none" /\ id \in DOMAIN mem /\ mem' = Put(id, Fresh) /\ UNCHANGED <<cfg, c>>
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Fresh) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>
=============================================================================
