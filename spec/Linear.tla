------------------------------- MODULE Linear -------------------------------
(* Linear algebra for small matrices over the field, by cofactors.          *)
EXTENDS Field
Minor(m, i, j) == TLCEval([r \in 1..(Len(m)-1) |-> [s \in 1..(Len(m)-1) |-> m[IF r < i THEN r ELSE r+1][IF s < j THEN s ELSE s+1]]])
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1
          ELSE LET RECURSIVE T(_)
                   T(j) == IF j = 0 THEN 0
                           ELSE LET v == Mul(m[1][j], Det(Minor(m, 1, j))) IN Add(T(j-1), IF j % 2 = 1 THEN v ELSE Neg(v))
               IN T(Len(m))
Inverse(m) == LET d == TLCEval(Inv(Det(m))) IN
   TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> LET v == Mul(d, Det(Minor(m, j, i))) IN IF (i + j) % 2 = 0 THEN v ELSE Neg(v)]])
MatVec(m, v) == TLCEval([i \in 1..Len(m) |-> Dot(m[i], v, Len(v))])
=============================================================================
