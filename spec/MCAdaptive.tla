----------------------------- MODULE MCAdaptive -----------------------------
(* What the quadratures imply: with order q the corrected step integrates    *)
(* every polynomial in time of degree up to q exactly, whatever the sizes of *)
(* the steps before, the predicted one up to q-1; the error estimate is the  *)
(* difference and sees degree q; for equal steps estimates have the tabled   *)
(* coefficients.  All histories of a few steps of mixed sizes and directions *)
(* with the growing order of the plain stepper.                              *)
EXTENDS AdaptiveAdams
CONSTANT MaxN, Sizes
VARIABLES deg, hist
Fun(t) == << Pow(M(t), deg) >>
Sol(a, b) == Div(Sub(Pow(M(b), deg + 1), Pow(M(a), deg + 1)), M(deg + 1))
MInit == /\ deg \in 0..(MaxN + 1)
         /\ \E n \in 1..MaxN : AStart([kind |-> "plain", n |-> n])
         /\ hist = << 5 >>                                \* times visited
\* the evaluations of a step are forced, so a whole step is one transition
Begin == hist[Len(hist)]
MNext ==
  /\ Len(hist) <= N + 2
  /\ \E h \in Sizes \cup {0 - s : s \in Sizes} :
       /\ \A j \in 1..Len(hist) : hist[j] # Begin + h
       /\ LET m == mem[0]
              ps == IF m.pts = <<>> THEN << Point(M(Begin), Fun(Begin)) >> ELSE m.pts
          IN mem' = (0 :> [pts |-> Push(Point(M(Begin + h), Fun(Begin + h)), ps), q |-> Grown(m.q)])
       /\ hist' = Append(hist, Begin + h)
  /\ UNCHANGED <<cfg, c, deg>>
X0 == << 17 >>
Pts == IF mem[0].pts = <<>> THEN << Point(M(Begin), Fun(Begin)) >> ELSE mem[0].pts
Pre(h) == Quadrature(X0, Newest(Pts, mem[0].q), M(Begin), M(h))
Cor(h) == Quadrature(X0, << Point(M(Begin + h), Fun(Begin + h)) >> \o Newest(Pts, mem[0].q), M(Begin), M(h))
Tests == {h \in {1, 3, -7} : \A j \in 1..Len(hist) : hist[j] # Begin + h}
Right(h) == << Add(X0[1], Sol(Begin, Begin + h)) >>
Enough == mem[0].q <= Len(Pts) /\ mem[0].q \in 1..N
Exact == \A h \in Tests : /\ deg <= mem[0].q => Cor(h) = Right(h)
                          /\ deg < mem[0].q => Pre(h) = Right(h)
Monotone(h) == \A j \in 1..(Len(hist)-1) : (hist[j+1] - hist[j]) * h > 0
Sees == \A h \in Tests : (Monotone(h) /\ deg = mem[0].q) => Pre(h) # Cor(h)
\* equal steps: estimate = h * (tabled coefficient) * difference, which is what the order control uses
Equal == Len(hist) > 2 /\ \A j \in 2..(Len(hist)-1) : hist[j+1] - hist[j] = hist[2] - hist[1]
Tabled == LET h == hist[2] - hist[1] q == mem[0].q
              ps == << Point(M(Begin + h), Fun(Begin + h)) >> \o Newest(Pts, q)
          IN (Equal /\ Len(hist) >= 2) => VSub(Cor(h), Quadrature(X0, Newest(ps, q), M(Begin), M(h))) = VScale(Mul(M(h), Gs[q+1]), Diff(ps, q, 1))
ASSUME \A n \in 1..8 : Gs[n+1] = Sub(Weights([j \in 1..(n+1) |-> M(2 - j)], 0, 1)[1], Weights([j \in 1..n |-> M(2 - j)], 0, 1)[1])
=============================================================================
