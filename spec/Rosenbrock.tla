----------------------------- MODULE Rosenbrock -----------------------------
(* The Rosenbrock method of order four (published as RODAS), its error       *)
(* estimate and its continuous extension, over the field;            *)
(* A step evaluates the Jacobian once, the right-hand side once per stage,   *)
(* and solves (1/(gamma h) - J) g = rhs for every stage with the same matrix.*)
EXTENDS Decimals, Linear, FiniteSets
VARIABLES cfg, mem, c
rovars == <<cfg, mem, c>>

\* stage s: argument weights A[s], right-hand side weights C[s] (over h), node, weight of df/dt
\* (p, n: value of a published constant and its negative; q: of a quotient; one: of 1)
RoATab(p(_), n(_), one) ==
       << <<>>, << p(RO_a21) >>, << p(RO_a31), p(RO_a32) >>, << p(RO_a41), p(RO_a42), p(RO_a43) >>,
          << p(RO_a51), p(RO_a52), p(RO_a53), n(RO_a54) >>, << p(RO_a51), p(RO_a52), p(RO_a53), n(RO_a54), one >> >>
RoCTab(p(_), n(_)) ==
       << <<>>, << n(RO_c21) >>, << n(RO_c31), n(RO_c32) >>, << n(RO_c41), n(RO_c42), n(RO_c43) >>,
          << p(RO_c51), n(RO_c52), n(RO_c53), p(RO_c54) >>,
          << p(RO_c61), n(RO_c62), n(RO_c63), p(RO_c64), n(RO_c65) >> >>
RoNTab(q(_,_)) == << q(0,1), q(386,1000), q(21,100), q(63,100), q(1,1), q(1,1) >>
RoDTab(n(_), q(_,_)) == << q(1,4), q(-1043,10000), q(1035,10000), n(RO_d4), q(0,1), q(0,1) >>
RoD2Tab(p(_), n(_)) == << p(RO_d21), n(RO_d22), n(RO_d23), n(RO_d24), p(RO_d25) >>
RoD3Tab(p(_), n(_)) == << n(RO_d31), p(RO_d32), p(RO_d33), p(RO_d34), n(RO_d35) >>
N(v) == Neg(Dec(v[1], v[2]))
D(v) == Dec(v[1], v[2])
RoA == TLCEval(RoATab(D, N, 1))
RoC == TLCEval(RoCTab(D, N))
RoN == TLCEval(RoNTab(Q))
RoD == TLCEval(RoDTab(N, Q))
RoD2 == TLCEval(RoD2Tab(D, N))
RoD3 == TLCEval(RoD3Tab(D, N))
RoGamma == Q(1,4)


----------------------------------------------------------------------------
None == [op |-> "none"]
Nothing == [g |-> <<>>, live |-> FALSE, prep |-> <<>>]
RoStart(cf) == cfg = cf /\ mem = (0 :> Nothing) /\ c = None
Put(id, m) == (id :> m) @@ mem
Call(id, op, form, x, t, dt) == [op |-> op, id |-> id, form |-> form, x |-> x, t |-> t, dt |-> dt, f |-> <<>>, g |-> <<>>, inv |-> <<>>, ft |-> <<>>, n |-> 0]
Open(id, form, x, t, dt) ==
  /\ c.op = "none" /\ id \in DOMAIN mem
  /\ c' = Call(id, "step", form, x, t, dt)
  /\ UNCHANGED <<cfg, mem>>
Idle == <<>>
\* c.n evaluations done; c.g the stage solutions; the stage l is solved as soon as its evaluation is there
Arg(l) == Step(c.x, 1, RoA[l], c.g)
RhsOf(l, f, g, ft) == LET n == Len(c.x) IN
  TLCEval([i \in 1..n |-> Add(Add(f[i], Mul(Mul(c.dt, RoD[l]), ft[i])), Div(Comb(RoC[l], g, l-1, i), c.dt))])
Solve(l, f, g, inv, ft) == MatVec(inv, RhsOf(l, f, g, ft))
Matrix(J) == TLCEval([i \in 1..Len(J) |-> [k \in 1..Len(J) |-> Sub(IF i = k THEN Inv(Mul(RoGamma, c.dt)) ELSE 0, J[i][k])]])
Working == c.op \in {"step", "dense"}
Rhs(x, t, d, n) ==
  /\ Working /\ c.n < 6 /\ n = Len(c.x) /\ Len(d) = n
  /\ LET l == c.n + 1 IN
     /\ l > 1 => c.inv # <<>>
     /\ t = Add(c.t, Mul(RoN[l], c.dt))
     /\ x = (IF l = 1 THEN c.x ELSE Arg(l))
     /\ c' = [c EXCEPT !.n = l, !.f = d, !.g = IF c.inv = <<>> THEN @ ELSE Append(@, Solve(l, d, @, c.inv, c.ft))]
  /\ UNCHANGED <<cfg, mem>>
\* the Jacobian: at the start of the step, before or after the first evaluation
Jac(x, t, J, ft, n1, n2) ==
  /\ Working /\ c.inv = <<>> /\ c.n <= 1
  /\ x = c.x /\ t = c.t /\ n1 = Len(x) /\ n2 = Len(x) /\ Len(ft) = Len(x)
  /\ \A inv \in {Inverse(Matrix(J))} :
       c' = [c EXCEPT !.inv = inv, !.ft = ft, !.g = IF c.n = 1 THEN << Solve(1, c.f, <<>>, inv, ft) >> ELSE <<>>]
  /\ UNCHANGED <<cfg, mem>>
Err == c.g[6]
New == VAdd(Arg(6), c.g[6])
Complete == c.n = 6 /\ Len(c.g) = 6
Done(out, err, in) ==
  /\ c.op = "step" /\ Complete
  /\ out = New /\ (err # <<>> => err = Err)
  /\ IF c.form = "i" THEN in = <<>> ELSE in = c.x
  /\ mem' = Put(c.id, [mem[c.id] EXCEPT !.g = c.g])
  /\ c' = None /\ UNCHANGED cfg
\* the continuous extension of the last step is prepared, and evaluated with given end points
Prep(id) == /\ c.op = "none" /\ mem[id].g # <<>> /\ mem' = Put(id, [mem[id] EXCEPT !.prep = mem[id].g]) /\ UNCHANGED <<cfg, c>>
Inside(g, t, xo, to, xn, tn) ==
  LET s == Div(Sub(t, to), Sub(tn, to)) s1 == Sub(1, s) IN
  TLCEval([i \in 1..Len(xo) |-> Add(Mul(xo[i], s1), Mul(s, Add(xn[i], Mul(s1, Add(Comb(RoD2, g, 5, i), Mul(s, Comb(RoD3, g, 5, i)))))))])
Calc(id, t, xo, to, xn, tn, x) ==
  /\ c.op = "none" /\ mem[id].prep # <<>> /\ x = Inside(mem[id].prep, t, xo, to, xn, tn) /\ UNCHANGED rovars
----------------------------------------------------------------------------
(* dense output around a controller whose verdicts are open                  *)
DenseInit(id, x, t, dt) ==
  /\ c.op = "none"
  /\ mem' = Put(id, [g |-> <<>>, prep |-> <<>>, live |-> TRUE, x |-> x, t |-> t, dt |-> dt, stepped |-> FALSE, xo |-> <<>>, to |-> 0])
  /\ UNCHANGED <<cfg, c>>
DenseOpen(id) == /\ c.op = "none" /\ mem[id].live
                 /\ c' = [Call(id, "dense", "o", mem[id].x, mem[id].t, mem[id].dt) EXCEPT !.ft = <<>>]
                 /\ UNCHANGED <<cfg, mem>>
Verdict(ok, new) ==
  /\ c.op = "dense" /\ Complete
  /\ c' = IF ok THEN [c EXCEPT !.op = "accepted", !.f = << new >>] ELSE Call(c.id, "dense", "o", c.x, c.t, new)
  /\ UNCHANGED <<cfg, mem>>
DenseClose(told, tnew) ==
  /\ c.op = "accepted"
  /\ told = c.t /\ tnew = Add(c.t, c.dt)
  /\ mem' = Put(c.id, [g |-> c.g, prep |-> c.g, live |-> TRUE, x |-> New, t |-> tnew, dt |-> c.f[1], stepped |-> TRUE, xo |-> c.x, to |-> c.t])
  /\ c' = None /\ UNCHANGED cfg
\* gives up after 500 rejections in a row, and only then
GiveUp(n) == c.op = "dense" /\ n >= 500 /\ c' = None /\ mem' = Put(c.id, [mem[c.id] EXCEPT !.live = FALSE]) /\ UNCHANGED cfg
At(id, t, x, dt, told, xold) ==
  /\ c.op = "none" /\ mem[id].live
  /\ t = mem[id].t /\ x = mem[id].x /\ dt = mem[id].dt
  /\ mem[id].stepped => told = mem[id].to /\ xold = mem[id].xo
  /\ UNCHANGED rovars
DenseCalc(id, t, x) ==
  /\ c.op = "none" /\ mem[id].live /\ mem[id].stepped
  /\ LET m == mem[id] IN x = Inside(m.prep, t, m.xo, m.to, m.x, m.t)
  /\ UNCHANGED rovars
----------------------------------------------------------------------------
Size(id, n) == c.op = "none" /\ UNCHANGED rovars
Redim(id, n) == c.op = "none" /\ UNCHANGED rovars
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Nothing) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>
=============================================================================
