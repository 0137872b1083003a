------------------------------- MODULE Split -------------------------------
(* Split states: a sequence held in several parts (OpenMP: one per thread,   *)
(* MPI: one per process).  Two split states x and y and a plain sequence.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
VARIABLES x, y, plain       \* x, y: sequences of parts; plain: sequence
svars == <<x, y, plain>>

Flat(parts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, parts)
Shape(parts) == [i \in 1..Len(parts) |-> Len(parts[i])]
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
Abs(v) == IF v < 0 THEN -v ELSE v
Norm(parts) == LET f == Flat(parts) IN MaxOf({0} \cup {Abs(f[i]) : i \in 1..Len(f)})

\* splitting: contiguous parts which cover the sequence once, in order
SplitInto(k, parts) == /\ Len(parts) = k
                       /\ Flat(parts) = plain
                       /\ x' = parts /\ UNCHANGED <<y, plain>>
\* joining gives the sequence back and leaves the parts as they are
Join(res, parts) == /\ res = Flat(x) /\ parts = x
                    /\ plain' = res /\ UNCHANGED <<x, y>>
\* part sizes are those of the other state, part by part (contents are free where
\* there were none, and kept otherwise)
ResizeY(parts) == /\ Shape(parts) = Shape(x)
                  /\ \A i \in 1..Len(parts) : i <= Len(y) =>
                        \A j \in 1..Len(parts[i]) : j <= Len(y[i]) => parts[i][j] = y[i][j]
                  /\ y' = parts /\ UNCHANGED <<x, plain>>
SameSize(b) == b = (Shape(x) = Shape(y)) /\ UNCHANGED svars
CopyToY(parts, src) == /\ parts = x /\ src = x
                       /\ y' = parts /\ UNCHANGED <<x, plain>>
NormX(vals) == (\A i \in 1..Len(vals) : vals[i] = Norm(x)) /\ UNCHANGED svars
=============================================================================
