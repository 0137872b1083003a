------------------------ MODULE ExtrapolationControl ------------------------
(* Order and step-size control of the extrapolation methods.  All sizes are  *)
(* logarithms in millionths, so the law is sums and comparisons and does not *)
(* know a direction of time.  Row n of a step has an error (Ln of it, zero   *)
(* being very negative), a step the law finds ideal for that error, and a    *)
(* cost; work = cost per unit of time.  A step works towards row k ("order") *)
(* and may be accepted or given up at rows k-1, k and k+1 only - at any row  *)
(* when nothing is known yet.                                                *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, mem
ecvars == <<cfg, mem>>
Mio == 1000000
Eps == 8                                    \* accuracy of the comparisons
Never == 99000000
KTop == 7
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Prime == (2 :> 693147) @@ (3 :> 1098612) @@ (5 :> 1609438) @@ (7 :> 1945910) @@ (11 :> 2397895) @@ (13 :> 2564949) @@ (17 :> 2833213)
RECURSIVE LnI(_)
LnI(n) == IF n = 1 THEN 0 ELSE LET p == CHOOSE q \in DOMAIN Prime : n % q = 0 /\ \A r \in DOMAIN Prime : r < q => n % r # 0 IN Prime[p] + LnI(n \div p)
LnTab == TLCEval([n \in (1..162) \cap {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 17, 18, 20, 30, 32, 42, 50, 56, 72, 90, 98, 128, 162} |-> LnI(n)])
Safe == -430783      \* ln 0.65, 0.94, 0.02, 0.9
Shy == -61875
Least == -3912023
Cheap == -105361

Fresh == [first |-> TRUE, rej |-> FALSE, k |-> 4]
Start(cf) == cfg = cf /\ mem = (0 :> Fresh)
Is(kind) == cfg.kind = kind
\* cumulated numbers of right-hand sides of rows 0..n
Cost(n) == LnTab[IF Is("bs") THEN (n + 1) * (n + 2) ELSE 2 * (n + 1) * (n + 1)]
Root(n) == IF Is("bs") THEN 2 * n + 1 ELSE 4 * n - 2
Ideal(n, e) == LET low == Least \div (2 * n + 1) IN Max(low - 2 * LnTab[2], Min(-low, Shy + ((Safe - e) \div Root(n))))
\* no hope to converge in the rows that are left
Hopeless(k, n, e) == LET d == IF n = k - 1 THEN (IF Is("bs") THEN LnTab[k+1] + LnTab[k+2] ELSE LnTab[2*k+1] + LnTab[2*k+3])
                              ELSE (IF Is("bs") THEN LnTab[k+1] ELSE LnTab[2*k+3])
                     IN e - 2 * d
Lt(a, b) == IF a < b - Eps THEN {TRUE} ELSE IF a > b + Eps THEN {FALSE} ELSE BOOLEAN
\* results: rows used, accepted, new order, ideal step
R(n, ok, k, ln) == [n |-> n, ok |-> ok, k |-> k, ln |-> ln]
RECURSIVE From(_,_,_)
From(m, S, n) ==
  LET k == m.k
      Hh == [j \in 1..n |-> Ideal(j, S[j])]
      W == [j \in 1..n |-> Cost(j) - Hh[j]]
      Cheaper(i, j) == IF i < 1 \/ j < 1 THEN {FALSE} ELSE Lt(W[i], Cheap + W[j])     \* row 0 has no estimate
      Early == (n = k - 1 \/ m.first)
      Good == Lt(S[n], 0)
      Bad == Lt(0, Hopeless(k, n, S[n]))
      Later == IF n = k + 1 THEN {R(n, FALSE, k, Hh[k])} ELSE From(m, S, n + 1)
      Acc1 == UNION {IF w \/ k <= 2 THEN {R(n, TRUE, Min(KTop, Max(2, n + 1)), Hh[n] + Cost(n + 1) - Cost(n))}
                                    ELSE {R(n, TRUE, Min(KTop, Max(2, n)), Hh[n])} : w \in Cheaper(n, n - 1)}
      Acc2 == UNION {UNION {IF a THEN {R(n, TRUE, Max(2, k - 1), Hh[Max(2, k - 1)])}
                            ELSE IF b /\ ~m.rej THEN {R(n, TRUE, Min(KTop, k + 1), Hh[n] + Cost(Min(KTop, k + 1)) - Cost(n))}
                            ELSE {R(n, TRUE, k, Hh[k])} : b \in Cheaper(n, n - 1)} : a \in Cheaper(n - 1, n)}
      Acc3 == UNION {LET q == IF a THEN Max(2, k - 1) ELSE k IN
                     UNION {LET q2 == IF b /\ ~m.rej THEN Min(KTop, n) ELSE q IN {R(n, TRUE, q2, Hh[q2])} : b \in Cheaper(n, q)} : a \in Cheaper(n - 2, n - 1)}
  IN UNION {IF Early /\ g THEN Acc1
            ELSE IF n = k /\ g THEN Acc2
            ELSE IF n = k + 1 /\ g THEN Acc3
            ELSE IF n = k - 1 /\ ~m.first THEN UNION {IF h THEN {R(n, FALSE, k, Hh[n])} ELSE Later : h \in Bad}
            ELSE IF n = k THEN UNION {IF h THEN {R(n, FALSE, k, Hh[n])} ELSE Later : h \in Bad}
            ELSE Later : g \in Good}
\* ci: error of the interpolation polynomial (Ln), asked after an accepted step by the controlled dense stepper
Ten == LnI(10)
Outcomes(m, S, ci) ==
  UNION {IF o.ok /\ cfg.ci
         THEN UNION {IF b THEN {R(o.n, FALSE, o.k, (-ci) \div (2 * o.n + 2))} ELSE {o} : b \in Lt(Ten, ci)}
         ELSE {o} : o \in From(m, S, 1)}
\* after a failure the step does not grow; lm: Ln of limit over step
Steps(m, o, lm) == UNION {IF ~m.rej \/ sh THEN {Min(o.ln, lm)} ELSE {0} : sh \in Lt(o.ln, 0)}
Near(a, b) == a - b < Eps /\ b - a < Eps
Try(id, S, n, ok, ln, lm, atmax, same, ci) ==
  /\ id \in DOMAIN mem
  /\ \E o \in Outcomes(mem[id], S, ci) :
       /\ n = o.n /\ ok = o.ok
       /\ \E s \in Steps(mem[id], o, lm) :
            /\ Near(s, ln) /\ s <= lm + Eps
            /\ s = lm /\ s < o.ln - Eps => atmax
            /\ s = 0 /\ o.ln > Eps /\ lm > Eps => same
       /\ mem' = (id :> [first |-> FALSE, rej |-> ~ok, k |-> o.k]) @@ mem
  /\ UNCHANGED cfg
\* larger than the limit: set to it, nothing evaluated; the dense stepper counts it as its first attempt
Refused(id) == /\ id \in DOMAIN mem
               /\ mem' = (IF Is("bs") THEN mem ELSE (id :> [mem[id] EXCEPT !.first = FALSE]) @@ mem)
               /\ UNCHANGED cfg
\* reset, initialize, a step or size other than the one proposed
Anew(id) == id \in DOMAIN mem /\ mem' = (id :> Fresh) @@ mem /\ UNCHANGED cfg
Copy(a, b) == a \in DOMAIN mem /\ mem' = (b :> mem[a]) @@ mem /\ UNCHANGED cfg
=============================================================================
