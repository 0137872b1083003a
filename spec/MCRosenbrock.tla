---------------------------- MODULE MCRosenbrock -----------------------------
(* What the published constants imply, in decimals of four places: the       *)
(* method reproduces exp(z) to z^4 and integrates t^k exactly to t^3 (the    *)
(* time derivative included), the companion without the last stage to one    *)
(* order less, and the continuous extension to order three inside.           *)
EXTENDS Rosenbrock
VARIABLES mt, mk
S == 10000
FMul(x, y) == (x \div S) * y + (((x % S) * y) \div S)
FP(v) == v[1] * S + v[2][1]
FN(v) == -FP(v)
FQ(a, b) == (a * S) \div b
FA == RoATab(FP, FN, S)
FC == RoCTab(FP, FN)
FNod == RoNTab(FQ)
FD == RoDTab(FN, FQ)
FD2 == RoD2Tab(FP, FN)
FD3 == RoD3Tab(FP, FN)
RECURSIVE FDot(_,_,_)
FDot(w, g, n) == IF n = 0 THEN 0 ELSE FDot(w, g, n-1) + FMul(w[n], g[n])
RECURSIVE FPow(_,_)
FPow(x, n) == IF n = 0 THEN S ELSE FMul(x, FPow(x, n-1))
Fact(n) == << 1, 1, 2, 6, 24 >>[n+1]
\* solution of x' = z x: coefficients of z^0..z^4 of every stage
Coef(g, k) == [j \in 1..Len(g) |-> g[j][k+1]]
RECURSIVE Series(_)
Series(l) == IF l = 0 THEN <<>> ELSE
  LET g == Series(l-1)
      RECURSIVE Cf(_)
      Cf(k) == IF k = 0 THEN << FDot(FC[l], Coef(g, 0), l-1) \div 4 >>
               ELSE LET p == Cf(k-1) IN Append(p, (p[k] + (IF k = 1 THEN S ELSE 0) + FDot(FA[l], Coef(g, k-1), l-1) + FDot(FC[l], Coef(g, k), l-1)) \div 4)
  IN Append(g, Cf(4))
G == TLCEval(Series(6))
\* quadrature of t^k over [0,1]
RECURSIVE Quad(_,_)
Quad(k, l) == IF l = 0 THEN <<>> ELSE
  LET g == Quad(k, l-1) IN Append(g, (FPow(FNod[l], k) + (IF k = 1 THEN FD[l] ELSE 0) + FDot(FC[l], g, l-1)) \div 4)
QG == TLCEval([k \in 0..3 |-> Quad(k, 6)])
\* y' = t^k, z' = y (the Jacobian sees it) and z' = t y (it does not, at t = 0)
RECURSIVE Chain(_,_), Prod(_,_)
Chain(k, l) == IF l = 0 THEN <<>> ELSE
  LET g == Chain(k, l-1) IN Append(g, (FDot(FA[l], QG[k], l-1) + QG[k][l] + FDot(FC[l], g, l-1)) \div 4)
Prod(k, l) == IF l = 0 THEN <<>> ELSE
  LET g == Prod(k, l-1) IN Append(g, (FMul(FNod[l], FDot(FA[l], QG[k], l-1)) + FDot(FC[l], g, l-1)) \div 4)
Thetas == {2500, 5000, 8000}
NewOf(g) == FDot(FA[6], g, 5) + g[6]
InsideOf(th, g) == FMul(th, NewOf(g) + FMul(S - th, FDot(FD2, g, 5) + FMul(th, FDot(FD3, g, 5))))
Close(x, y) == x - y < 40 /\ y - x < 40
MInit == mt \in Thetas /\ mk \in 0..4 /\ RoStart([kind |-> "none"])
MNext == UNCHANGED <<mt, mk, rovars>>
Linear == mk >= 1 => Close(NewOf(Coef(G, mk)), S \div Fact(mk))
Quadrature == mk <= 3 => Close(NewOf(QG[mk]), S \div (mk + 1))
Nested == /\ mk <= 2 => Close(NewOf(Chain(mk, 6)), S \div ((mk + 1) * (mk + 2)))
          /\ mk <= 1 => Close(NewOf(Prod(mk, 6)), S \div ((mk + 1) * (mk + 3)))
Companion == /\ mk \in 1..3 => Close(FDot(FA[6], Coef(G, mk), 5), S \div Fact(mk))
             /\ mk <= 2 => Close(FDot(FA[6], QG[mk], 5), S \div (mk + 1))
Continuous == /\ mk \in 1..3 => Close(InsideOf(mt, Coef(G, mk)), FPow(mt, mk) \div Fact(mk))
              /\ mk <= 2 => Close(InsideOf(mt, QG[mk]), FPow(mt, mk + 1) \div (mk + 1))
\* the estimate is not trivial: it sees the next order
Estimate == ~Close(QG[3][6], 0)
=============================================================================
