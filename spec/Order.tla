-------------------------------- MODULE Order --------------------------------
(* Butcher's theory of order, as a machine: rooted trees are visited one     *)
(* after the other; the elementary weights of a tree are those of its        *)
(* branches, already visited.  A scheme has order p if its weights meet the  *)
(* condition of every tree with at most p vertices.                          *)
EXTENDS Tableaux, SequencesExt, FiniteSets
CONSTANT MaxOrd
\* ---- rooted trees: [ord, gam, ch] with ch the branches as a nonincreasing
\*      sequence of positions in the list
\* forests of total order n with branches at positions <= top in list L
RECURSIVE Forests(_,_,_)
Forests(n, top, L) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION { { <<b>> \o fo : fo \in Forests(n - L[b].ord, b, L) } : b \in { q \in 1..top : L[q].ord <= n } }
GamProd(ch, L) == LET f[m \in 0..Len(ch)] == IF m = 0 THEN 1 ELSE Mul(f[m-1], L[ch[m]].gam) IN f[Len(ch)]
Grow(n, L) == TLCEval(L \o SetToSeq({ [ord |-> n, ch |-> fo, gam |-> Mul(n, GamProd(fo, L))] : fo \in Forests(n-1, Len(L), L) }))
TreesTo[n \in 0..MaxOrd] == IF n = 0 THEN <<>> ELSE Grow(n, TreesTo[n-1])
Trees == TLCEval(TreesTo[MaxOrd])
NT == Len(Trees)
Count(n) == Cardinality({ q \in 1..NT : Trees[q].ord = n })

RECURSIVE SumRow(_,_,_)
SumRow(row, v, n) == IF n = 0 THEN 0 ELSE (SumRow(row, v, n-1) + ((row[n] * v[n]) % P)) % P
\* elementary weights of tree number q for stage matrix a, given those before
Weights(a, q, phi) ==
  TLCEval([st \in 1..Len(a) |->
     LET ch == Trees[q].ch
         f[m \in 0..Len(ch)] == IF m = 0 THEN 1 ELSE Mul(f[m-1], SumRow(a[st], phi[ch[m]], st - 1))
     IN f[Len(ch)]])
Meets(w, ph, q, th) == Dot(w, ph, Len(w)) = Mul(Pow(th, Trees[q].ord), Inv(Trees[q].gam))
RowSums(a, nodes) == \A st \in 1..Len(a) : SumRow(a[st], [m \in 1..Len(a) |-> 1], st - 1) = nodes[st]
\* quadrature conditions of multistep formulas: weights w at (scaled) nodes ns
Moments(w, ns, p) == \A m \in 0..(p-1) : Dot(w, [q \in 1..Len(ns) |-> Pow(ns[q], m)], Len(w)) = Inv(M(m+1))
=============================================================================
