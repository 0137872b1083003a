------------------------------ MODULE MCSplit ------------------------------
(* Every sequence of operations over all small shapes.                       *)
EXTENDS Split
CONSTANTS MaxLen, MaxParts
Seqs == UNION {[1..n -> {-1, 2}] : n \in 0..MaxLen}
Cuts(n, k) == {c \in [0..k -> 0..n] : c[0] = 0 /\ c[k] = n /\ \A i \in 1..k : c[i-1] <= c[i]}
Parts(s, k) == {[i \in 1..k |-> SubSeq(s, c[i-1] + 1, c[i])] : c \in Cuts(Len(s), k)}
VARIABLE orig
MInit == /\ plain \in Seqs /\ orig = plain
         /\ x = <<>> /\ y = <<>>
MSplit == \E k \in 1..MaxParts : \E p \in Parts(plain, k) : SplitInto(k, p)
MJoin == x # <<>> /\ Join(Flat(x), x)
Like(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> IF i <= Len(b) /\ j <= Len(b[i]) THEN b[i][j] ELSE 0]]
MResize == x # <<>> /\ ResizeY(Like(x, y))
MCopy == x # <<>> /\ Shape(x) = Shape(y) /\ CopyToY(x, x)
MNext == UNCHANGED orig /\ (MSplit \/ MJoin \/ MResize \/ MCopy \/ SameSize(Shape(x) = Shape(y)))
Lossless == plain = orig /\ (x # <<>> => Flat(x) = orig)
NormSame == x # <<>> => Norm(x) = Norm(<<plain>>)
=============================================================================
