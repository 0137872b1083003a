--------------------------- MODULE BulirschStoer ----------------------------
(* Extrapolation of midpoint-rule results, over the field, for any           *)
(* right-hand side.  An attempt works through rows 0, 1, 2, ... of the        *)
(* tableau; row k is the modified midpoint rule with Subs(k) substeps, whose  *)
(* result is extrapolated with the former rows.  From row 1 on the error     *)
(* measure judges the difference of the last two extrapolations; an attempt  *)
(* is accepted only by a verdict below one.  Which rows may accept or give   *)
(* up is the business of the order control (module ExtrapolationControl) and *)
(* is left open here.                                                        *)
(* kind "bs": controlled stepper, sequence 2,4,6,...                         *)
(* kind "dense": dense output, sequence 2,6,10,...; derivative carried over  *)
EXTENDS Field, FiniteSets
VARIABLES cfg, mem, c
bsvars == <<cfg, mem, c>>
KMax == 8
Subs(k) == IF cfg.kind = "dense" THEN 2 + 4 * k ELSE 2 * (k + 1)
None == [op |-> "none"]
Fresh == [first |-> TRUE, live |-> FALSE, d0 |-> <<>>, poly |-> <<>>, stepped |-> FALSE]
BsStart(cf) == cfg = cf /\ mem = (0 :> Fresh) /\ c = None
Put(id, m) == (id :> m) @@ mem

----------------------------------------------------------------------------
\* midpoint rule with n substeps: z_1, and z_{i+1} from f_i
H(dt, n) == Div(dt, n)
Euler(x, d, h) == VAdd(x, VScale(h, d))
Leap(z, f, h) == VAdd(z, VScale(Mul(2, h), f))
Smooth(zn, zm, f, h) == VScale(Q(1,2), VAdd(VAdd(zn, zm), VScale(h, f)))
\* Aitken-Neville: next row from the first entry and the former row; row numbers k0, k0+1, ... of the sequence
RECURSIVE Row(_,_,_,_)
Row(first, old, k, j) ==     \* entries 0..j of row k
  IF j = 0 THEN << first >>
  ELSE LET r == Row(first, old, k, j-1)
           q == Div(Subs(k), Subs(k - j))
           w == Inv(Sub(Mul(q, q), 1))
       IN Append(r, VAdd(r[j], VScale(w, VSub(r[j], old[j]))))
NewRow(first, old, k) == TLCEval(Row(first, old, k, Len(old)))
\* extrapolate a sequence of values belonging to rows k0..k0+Len(v)-1
RECURSIVE Extra(_,_,_)
Extra(v, k0, n) == IF n = 1 THEN << v[1] >> ELSE TLCEval(NewRow(v[n], Extra(v, k0, n-1), k0 + n - 1))
Limit(v, k0) == LET r == Extra(v, k0, Len(v)) IN r[Len(r)]

(* The interpolation polynomial in theta = -1..1: value and derivatives at   *)
(* the centre, from central differences of the stage derivatives,            *)
(* extrapolated over the rows that have enough of them.                      *)
RECURSIVE Binom(_,_)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE (Binom(n-1, k-1) + Binom(n-1, k))
BinTab == TLCEval([n \in 0..17 |-> [k \in 0..n |-> Binom(n, k) % P]])
FacTab == LET RECURSIVE F(_) F(n) == IF n = 0 THEN 1 ELSE Mul(n, F(n-1)) IN TLCEval([n \in 0..18 |-> F(n)])
RECURSIVE Central(_,_,_,_,_)
Central(fs, d0, mid, kap, i) ==     \* sum over 0..i of (-1)^i C(kap,i) f at mid + kap - 2 i
  IF i < 0 THEN VScale(0, d0)
  ELSE LET w == BinTab[kap][i] l == mid + kap - 2 * i IN
       VAdd(Central(fs, d0, mid, kap, i-1), VScale(IF i % 2 = 0 THEN w ELSE Neg(w), IF l = 0 THEN d0 ELSE fs[l]))
Difference(fs, d0, dt, j, kap) == VScale(Pow(Div(Subs(j), Mul(2, dt)), kap), Central(fs, d0, Subs(j) \div 2, kap, kap))
Poly(rows, mids, d0, dt) ==
  LET k == Len(rows) - 1
      half == Div(dt, 2)
      Der(kap) == Limit([i \in 1..(k - (kap \div 2) + 1) |-> Difference(rows[(kap \div 2) + i], d0, dt, (kap \div 2) + i - 1, kap)], kap \div 2)
  IN TLCEval(<< Limit(mids, 0) >> \o [i \in 1..(2*k+2) |-> VScale(Div(Pow(half, i), FacTab[i]), Der(i-1))])
RECURSIVE Horner(_,_,_)
Horner(p, th, i) == IF i = Len(p) THEN p[i] ELSE VAdd(p[i], VScale(th, Horner(p, th, i+1)))
At0(p, th) == Horner(p, th, 1)

----------------------------------------------------------------------------
\* k: row being worked on; z, f: stages of this row; T: last complete row of the tableau
\* v: verdict about it (-1 none); rows, mids: what the interpolation needs; stage: "rows", "end", "judge"
Call(op, id, form, x, t, dt, d) ==
  [op |-> op, id |-> id, form |-> form, x |-> x, t |-> t, dt |-> dt, d0 |-> d, k |-> 0, z |-> <<>>, f |-> <<>>, T |-> <<>>,
   v |-> -1, rows |-> <<>>, mids |-> <<>>, end |-> <<>>, p |-> <<>>, stage |-> "rows", tries |-> 1]
Working == c.op \in {"try", "dstep"}
Open(id, form, x, t, dt, d) ==
  /\ c.op = "none" /\ id \in DOMAIN mem
  /\ c' = Call("try", id, form, x, t, dt, d)
  /\ UNCHANGED <<cfg, mem>>
Val == c.T[Len(c.T)]
\* does the evaluation (x, t) continue the current row?
Stage(x, t) ==
  /\ c.stage = "rows" /\ c.k <= KMax
  /\ ~(c.v = 0 /\ mem[c.id].first)
  /\ LET h == H(c.dt, Subs(c.k)) i == Len(c.f) + 1 IN
     /\ t = Add(c.t, Mul(i, h))
     /\ x = (IF i = 1 THEN Euler(c.x, c.d0, h) ELSE c.z[i])
TakeStage(x, d) ==
  LET n == Subs(c.k) h == H(c.dt, n) i == Len(c.f) + 1
      z == IF i = 1 THEN << x >> ELSE c.z
      fs == Append(c.f, d)
      next == Leap(IF i = 1 THEN c.x ELSE z[i-1], d, h)
  IN IF i < n THEN c' = [c EXCEPT !.z = Append(z, next), !.f = fs]
     ELSE \A row \in {NewRow(Smooth(z[n], z[n-1], d, h), c.T, c.k)} :
          c' = [c EXCEPT !.k = @ + 1, !.z = <<>>, !.f = <<>>, !.T = row, !.v = -1,
                         !.rows = Append(@, fs), !.mids = Append(@, z[n \div 2]),
                         !.stage = IF c.k = 0 THEN "rows" ELSE "judge"]
\* end of a successful attempt of the dense stepper
AtEnd(x, t) == c.op = "dstep" /\ c.stage = "rows" /\ c.f = <<>> /\ c.v = 0 /\ x = Val /\ t = Add(c.t, c.dt)
TakeEnd(d) ==
  \A p \in {Poly(c.rows, c.mids, c.d0, c.dt)} :
    c' = [c EXCEPT !.end = d, !.p = p, !.stage = IF cfg.ci THEN "interp" ELSE "accepted"]
\* a rejected attempt of the dense stepper is followed by one with another step
Failed == (c.stage = "rows" /\ c.f = <<>> /\ c.v > 0) \/ c.stage = "failed"
\* or, before anything is evaluated, the step is replaced by the maximum
Exceeds(t) == c.k = 0 /\ c.f = <<>> /\ cfg.mx # 0 /\ Mul(Subs(0), Sub(t, c.t)) = cfg.mx
Rhs(x, t, d, n) ==
  /\ Working /\ n = Len(c.x) /\ Len(d) = n
  /\ IF c.d0 = <<>> THEN x = c.x /\ t = c.t /\ c' = [c EXCEPT !.d0 = d]
     ELSE IF Stage(x, t) THEN TakeStage(x, d)
     ELSE IF AtEnd(x, t) THEN TakeEnd(d)
     ELSE /\ c.op = "dstep" /\ (Failed \/ Exceeds(t)) /\ c.tries < 510
          /\ LET dt == Mul(Subs(0), Sub(t, c.t)) h == H(dt, Subs(0)) IN
             /\ x = Euler(c.x, c.d0, h)
             /\ c' = [Call("dstep", c.id, c.form, c.x, c.t, dt, c.d0) EXCEPT !.z = << x, Leap(c.x, d, h) >>, !.f = << d >>, !.tries = c.tries + 1]
  /\ mem' = (IF c'.tries # c.tries THEN Put(c.id, [mem[c.id] EXCEPT !.first = FALSE]) ELSE mem)
  /\ UNCHANGED cfg
\* the error measure is asked with the data of the start of the step
Check(x, d, e, dt, v) ==
  /\ Working /\ x = c.x /\ d = c.d0 /\ dt = c.dt
  /\ IF c.stage = "judge"
     THEN /\ e = VSub(Val, c.T[Len(c.T) - 1])
          /\ c' = [c EXCEPT !.v = v, !.stage = "rows"]
     ELSE /\ c.stage = "interp"
          /\ e = c.p[Len(c.p)]
          /\ c' = [c EXCEPT !.stage = IF v > 10 THEN "failed" ELSE "accepted"]
  /\ UNCHANGED <<cfg, mem>>
\* a controlled step returns; out-of-place forms leave their input alone
Done(ok, x, t, in) ==
  /\ c.op = "try" /\ c.d0 # <<>> /\ c.stage = "rows" /\ c.f = <<>> /\ c.k >= 2
  /\ IF ok THEN c.v = 0 /\ x = Val /\ t = Add(c.t, c.dt)
     ELSE c.v > 0 /\ t = c.t /\ (c.form = "i" => x = c.x)
  /\ (c.form = "o" => in = c.x)
  /\ mem' = Put(c.id, [mem[c.id] EXCEPT !.first = FALSE])
  /\ c' = None /\ UNCHANGED cfg
\* too large for the maximum step: replaced by it, nothing but the start derivative evaluated
Refused(t, x, dt, mx) ==
  /\ c.op = "try" /\ c.d0 # <<>> /\ c.k = 0 /\ c.f = <<>>
  /\ t = c.t /\ x = c.x /\ dt = mx
  /\ c' = None /\ UNCHANGED <<cfg, mem>>
Reset(id) == c.op = "none" /\ id \in DOMAIN mem /\ mem' = Put(id, [mem[id] EXCEPT !.first = TRUE]) /\ UNCHANGED <<cfg, c>>
----------------------------------------------------------------------------
DenseInit(id, x, t, dt) ==
  /\ c.op = "none"
  /\ mem' = Put(id, [first |-> TRUE, live |-> TRUE, x |-> x, t |-> t, dt |-> dt, d0 |-> <<>>, poly |-> <<>>, stepped |-> FALSE, xo |-> <<>>, to |-> 0])
  /\ UNCHANGED <<cfg, c>>
DenseOpen(id) ==
  /\ c.op = "none" /\ mem[id].live
  /\ LET m == mem[id] IN c' = Call("dstep", id, "o", m.x, m.t, m.dt, m.d0)
  /\ UNCHANGED <<cfg, mem>>
DenseClose(told, tnew, dt) ==
  /\ c.op = "dstep" /\ c.stage = "accepted"
  /\ told = c.t /\ tnew = Add(c.t, c.dt)
  /\ mem' = Put(c.id, [first |-> FALSE, live |-> TRUE, x |-> Val, t |-> tnew, dt |-> dt, d0 |-> c.end, poly |-> c.p, stepped |-> TRUE, xo |-> c.x, to |-> c.t])
  /\ c' = None /\ UNCHANGED cfg
GiveUp == /\ c.op = "dstep" /\ Failed /\ c.tries >= 500
          /\ c' = None /\ mem' = Put(c.id, [mem[c.id] EXCEPT !.live = FALSE]) /\ UNCHANGED cfg
Look(id, t, x, dt, told, xold) ==
  /\ c.op = "none" /\ mem[id].live
  /\ t = mem[id].t /\ x = mem[id].x /\ dt = mem[id].dt
  /\ mem[id].stepped => told = mem[id].to /\ xold = mem[id].xo
  /\ UNCHANGED bsvars
Calc(id, t, x) ==
  /\ c.op = "none" /\ mem[id].live /\ mem[id].stepped
  /\ LET m == mem[id] IN x = At0(m.poly, Sub(Mul(2, Div(Sub(t, m.to), Sub(m.t, m.to))), 1))
  /\ UNCHANGED bsvars
----------------------------------------------------------------------------
Size(id, n) == c.op = "none" /\ id \in DOMAIN mem /\ UNCHANGED bsvars
\* a controlled stepper starts over when the dimension changes
Redim(id, n) == c.op = "none" /\ id \in DOMAIN mem /\ mem' = Put(id, [mem[id] EXCEPT !.first = TRUE]) /\ UNCHANGED <<cfg, c>>
\* also when it is given another step size than the one it proposed
Other(id) == c.op = "none" /\ mem' = Put(id, [mem[id] EXCEPT !.first = TRUE]) /\ UNCHANGED <<cfg, c>>
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Fresh) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>
=============================================================================
