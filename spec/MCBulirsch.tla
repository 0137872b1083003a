----------------------------- MODULE MCBulirsch -----------------------------
(* What the formulas imply: k+1 rows integrate t^p exactly for p <= 2k+1,    *)
(* the last two extrapolations then differ only from p = 2k on, and the      *)
(* interpolation polynomial is the solution itself up to p = 2k: it passes   *)
(* through both ends of the step and has the right slope there.              *)
EXTENDS BulirschStoer
CONSTANT MaxRow
VARIABLES mp, mk, mt, mh
MInit == /\ BsStart([kind |-> "bs"]) /\ cfg.kind = "bs"
         /\ mp \in 0..(2 * MaxRow + 2) /\ mk \in 1..MaxRow /\ mt \in {0, 3, P - 2} /\ mh \in {1, P - 5, 7919}
MInitD == /\ BsStart([kind |-> "dense"])
          /\ mp \in 0..(2 * MaxRow + 2) /\ mk \in 1..MaxRow /\ mt \in {0, 3, P - 2} /\ mh \in {1, P - 5, 7919}
MNext == UNCHANGED <<bsvars, mp, mk, mt, mh>>
Fun(t) == IF mp = 0 THEN << 1 >> ELSE << Pow(t, mp) >>
Sol(t) == Div(Pow(t, mp + 1), M(mp + 1))
X0 == << 11 >>
RECURSIVE Zs(_,_,_)
Zs(n, h, i) == IF i = 0 THEN << X0 >> ELSE IF i = 1 THEN << X0, Euler(X0, Fun(mt), h) >>
               ELSE LET z == Zs(n, h, i-1) IN Append(z, Leap(z[i-1], Fun(Add(mt, Mul(i-1, h))), h))
RowOf(k) == LET n == Subs(k) h == H(mh, n) IN
   CHOOSE r \in {[z |-> z, f |-> [i \in 1..n |-> Fun(Add(mt, Mul(i, h)))]] : z \in {TLCEval(Zs(n, h, n))}} : TRUE
Result(k, r) == Smooth(r.z[Subs(k)+1], r.z[Subs(k)], r.f[Subs(k)], H(mh, Subs(k)))
RECURSIVE Table(_)
Table(k) == IF k = 0 THEN << Result(0, RowOf(0)) >> ELSE TLCEval(NewRow(Result(k, RowOf(k)), Table(k-1), k))
Last == Table(mk)
True(t) == << Add(X0[1], Sub(Sol(t), Sol(mt))) >>
Exact == mp <= 2 * mk + 1 => Last[mk+1] = True(Add(mt, mh))
Embedded == mp <= 2 * mk - 1 => Last[mk] = True(Add(mt, mh))
\* the estimate sees the first degree the former row misses
Sees == mp = 2 * mk => Last[mk] # Last[mk+1]
Rows == [j \in 1..(mk+1) |-> RowOf(j-1)]
Interp == cfg.kind = "dense" /\ mp <= 2 * mk =>
  \A rs \in {Rows} :
  \A p \in {Poly([j \in 1..(mk+1) |-> rs[j].f], [j \in 1..(mk+1) |-> rs[j].z[(Subs(j-1) \div 2) + 1]], Fun(mt), mh)} :
  \A th \in {M(-1), 1, 0, 5, 23000} : At0(p, th) = True(Add(mt, Mul(Div(mh, 2), Add(th, 1))))
=============================================================================
