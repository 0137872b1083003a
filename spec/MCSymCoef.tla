----------------------------- MODULE MCSymCoef ------------------------------
(* What the published coefficients imply: a step of every mscheme preserves   *)
(* the symplectic form of every linear separable system, symmetric schemes   *)
(* are undone by the step back, and the order conditions of a symmetric      *)
(* fourth-order composition hold.                                            *)
EXTENDS Symplectic
VARIABLES mscheme, msys, mh
MMul0(X, Y) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(Y[1]) |-> Dot(X[i], [k \in 1..Len(Y) |-> Y[k][j]], Len(Y))]])
MMul(X, Y) == CHOOSE m \in {MMul0(XX, YY) : XX \in {X}, YY \in {Y}} : TRUE
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Tr(X) == TLCEval([i \in 1..Len(X[1]) |-> [j \in 1..Len(X) |-> X[j][i]]])
J4 == << <<0,0,1,0>>, <<0,0,0,1>>, <<P-1,0,0,0>>, <<0,P-1,0,0>> >>
\* two positions, two momenta; velocity = A p, force = B q with symmetric A, B
DriftM(w, A) == << <<1,0,Mul(w,A[1]),Mul(w,A[2])>>, <<0,1,Mul(w,A[2]),Mul(w,A[3])>>, <<0,0,1,0>>, <<0,0,0,1>> >>
KickM(w, B) == << <<1,0,0,0>>, <<0,1,0,0>>, <<Mul(w,B[1]),Mul(w,B[2]),1,0>>, <<Mul(w,B[2]),Mul(w,B[3]),0,1>> >>
RECURSIVE StepM(_,_,_,_)
StepM(co, l, dt, s) == IF l = 0 THEN Ident(4)
   ELSE MMul(MMul(KickM(Mul(co.b[l], dt), s[2]), DriftM(Mul(co.a[l], dt), s[1])), StepM(co, l-1, dt, s))
Systems == {<< <<1,0,1>>, <<P-1,0,P-4>> >>, << <<2,1,3>>, <<5,P-2,7>> >>, << <<0,1,0>>, <<1,1,1>> >>, << <<11,P-5,2>>, <<3,4,P-9>> >>}
CInit == mscheme \in Schemes /\ msys \in Systems /\ mh \in {1, 2, 17, P - 3} /\ SyStart([scheme |-> "none"])
CNext == UNCHANGED <<mscheme, msys, mh, syvars>>
Mat == StepM(CoefOf[mscheme], Len(CoefOf[mscheme].a), mh, msys)
Back == StepM(CoefOf[mscheme], Len(CoefOf[mscheme].a), Neg(mh), msys)
SymplecticForm == \A m \in {Mat} : MMul(Tr(m), MMul(J4, m)) = J4
Reversible == mscheme \in {"m4", "sb3a"} => MMul(Back, Mat) = Ident(4)
Sum(s) == Dot(s, [k \in 1..Len(s) |-> 1], Len(s))
Consistent == Sum(CoefOf[mscheme].a) = 1 /\ Sum(CoefOf[mscheme].b) = 1
\* order three for positions and momenta (the even order comes from symmetry)
Cs(co) == [i \in 1..Len(co.a) |-> Dot(co.a, [k \in 1..Len(co.a) |-> 1], i)]
Bs(co) == [i \in 1..Len(co.b) |-> Dot(co.b, [k \in 1..Len(co.b) |-> 1], i-1)]
Order3(co) == /\ Dot(co.b, [i \in 1..Len(co.b) |-> Mul(Cs(co)[i], Cs(co)[i])], Len(co.b)) = Q(1,3)
              /\ Dot(co.a, [i \in 1..Len(co.a) |-> Mul(Bs(co)[i], Bs(co)[i])], Len(co.a)) = Q(1,3)
M4Order == mscheme = "m4" => Order3(CoefOf["m4"])
\* the decimals of SB3A satisfy them to four places
ZA == LET a1 == 4052 a2 == -2871 IN << a1, a2, 5000 - a1 - a2, 5000 - a1 - a2, a2, a1 >>
ZB == LET b1 == -411 b2 == 2881 IN << b1, b2, 10000 - 2*(b1 + b2), b2, b1, 0 >>
RECURSIVE ZS(_,_)
ZS(s, n) == IF n = 0 THEN 0 ELSE ZS(s, n-1) + s[n]
RECURSIVE ZD(_,_,_,_)
ZD(w, s, d, n) == IF n = 0 THEN 0 ELSE ZD(w, s, d, n-1) + (w[n] * (((ZS(s, n-d)) * (ZS(s, n-d))) \div 10000)) \div 10000
Near(x, y) == x - y < 8 /\ y - x < 8
Places == /\ ZA[1] = (SB3A_a1[2][1] * 10 + SB3A_a1[2][2] \div 1000 + 5) \div 10
          /\ -ZA[2] = (SB3A_a2[2][1] * 10 + SB3A_a2[2][2] \div 1000 + 5) \div 10
          /\ Near(ZB[1] * 73, -30000) /\ Near((ZB[2] * 59) \div 10, 17000)
          /\ Near(ZD(ZB, ZA, 0, 6), 3333) /\ Near(ZD(ZA, ZB, 1, 6), 3333)
=============================================================================
