-------------------------------- MODULE Field --------------------------------
(* Exact arithmetic: the prime field with P = 46337 elements (products stay  *)
(* below 2^31).  A rational n/d of a published scheme is Q(n,d).             *)
EXTENDS Integers, Sequences, TLC
CONSTANT P   \* a prime, 46337 for the recordings
M(a) == a % P
Add(a,b) == (a + b) % P
Sub(a,b) == (a - b) % P
Mul(a,b) == (a * b) % P
Neg(a) == (-a) % P
RECURSIVE Pow(_,_)
Pow(a,e) == IF e = 0 THEN 1
            ELSE LET h == Pow(a, e \div 2) q == (h*h) % P
                 IN IF e % 2 = 1 THEN (q*a) % P ELSE q
Inv(a) == Pow(a, P-2)
Q(n,d) == Mul(M(n), Inv(M(d)))
\* hi*100000 + lo, for constants beyond 32 bits
Big(hi,lo) == Add(Mul(M(hi), M(100000)), M(lo))
Div(a,b) == Mul(a, Inv(b))

\* sum of w[l]*v[l] over 1..n
RECURSIVE Dot(_,_,_)
Dot(w, v, n) == IF n = 0 THEN 0 ELSE (Dot(w, v, n-1) + ((w[n]*v[n]) % P)) % P

\* vectors
VAdd(x,y) == TLCEval([i \in 1..Len(x) |-> Add(x[i], y[i])])
VSub(x,y) == TLCEval([i \in 1..Len(x) |-> Sub(x[i], y[i])])
VScale(a,x) == TLCEval([i \in 1..Len(x) |-> Mul(a, x[i])])
RECURSIVE Comb(_,_,_,_)
\* component i of sum over l in 1..n of w[l]*k[l]
Comb(w, k, n, i) == IF n = 0 THEN 0 ELSE (Comb(w, k, n-1, i) + ((w[n]*k[n][i]) % P)) % P
\* x + h * sum w[l] k[l]
Step(x, h, w, k) == TLCEval([i \in 1..Len(x) |-> Add(x[i], Mul(h, Comb(w, k, Len(w), i)))])
\* h * sum w[l] k[l] with as many components as x
Incr(x, h, w, k) == TLCEval([i \in 1..Len(x) |-> Mul(h, Comb(w, k, Len(w), i))])
=============================================================================
