-------------------------------- MODULE Adams --------------------------------
(* The contract of the fixed-step multistep methods over an exact field:     *)
(* Adams-Bashforth, Adams-Bashforth-Moulton (predict, evaluate, correct) and *)
(* the stand-alone Adams-Moulton corrector.  A behaviour is a history of     *)
(* calls on any number of stepper objects, each refined into the evaluations *)
(* of the system.  The coefficients are those of the interpolatory           *)
(* quadrature over one step: they are not copied from any table.             *)
(*  mem[id].h   derivatives at the previous step starts, newest first        *)
EXTENDS Tableaux, FiniteSets
VARIABLES cfg, mem, c
avars == <<cfg, mem, c>>

\* ---- polynomials over the field, ascending coefficients
PolyMulLin(p, r) == TLCEval([m \in 1..(Len(p)+1) |->        \* p(u) * (u - r)
   Sub(IF m > 1 THEN p[m-1] ELSE 0, IF m <= Len(p) THEN Mul(M(r), p[m]) ELSE 0)])
PolyProd(rs) == LET f[m \in 0..Len(rs)] == IF m = 0 THEN <<1>> ELSE PolyMulLin(f[m-1], rs[m]) IN f[Len(rs)]
Int01(p) == LET f[m \in 0..Len(p)] == IF m = 0 THEN 0 ELSE Add(f[m-1], Mul(p[m], Inv(M(m)))) IN f[Len(p)]
ProdDiff(a, rs) == LET f[m \in 0..Len(rs)] == IF m = 0 THEN 1 ELSE Mul(f[m-1], Sub(M(a), M(rs[m]))) IN f[Len(rs)]
Without(ns, q) == SubSeq(ns, 1, q-1) \o SubSeq(ns, q+1, Len(ns))
\* weights of the quadrature over [0,1] that is exact for polynomials through the nodes
Quad(ns) == TLCEval([q \in 1..Len(ns) |-> Div(Int01(PolyProd(Without(ns, q))), ProdDiff(ns[q], Without(ns, q)))])
AB == TLCEval([k \in 1..8 |-> Quad([q \in 1..k |-> 1 - q])])     \* nodes 0, -1, ...
AM == TLCEval([k \in 1..8 |-> Quad([q \in 1..k |-> 2 - q])])     \* nodes 1, 0, -1, ...

None == [op |-> "none"]
Fresh == [h |-> <<>>]
Put(id, m) == (id :> m) @@ mem
K == cfg.k
Start(cf) == cfg = cf /\ mem = (0 :> Fresh) /\ c = None
Starter == Scheme(c.start)
\* what of the history is usable for a state of n components
Usable(h, n) == IF h # <<>> /\ Len(h[1]) # n THEN <<>> ELSE h
Ready(h) == Len(h) + 1 >= K
Push(d, h) == LET g == << d >> \o h IN IF K = 1 THEN <<>> ELSE SubSeq(g, 1, IF Len(g) > K-1 THEN K-1 ELSE Len(g))

Open(id, form, t, dt, x) ==
  /\ c.op = "none" /\ id \in DOMAIN mem /\ cfg.kind \in {"ab", "abm"}
  /\ LET h == Usable(mem[id].h, Len(x)) IN
     c' = [op |-> IF Ready(h) THEN cfg.kind ELSE "start", id |-> id, form |-> form, t |-> t, dt |-> dt, x |-> x,
           h |-> h, k |-> <<>>, start |-> cfg.start]
  /\ UNCHANGED <<cfg, mem>>

Predicted == Step(c.x, c.dt, AB[K], << c.k[1] >> \o c.h)
\* the corrector on the derivative at the predicted point and the stored ones, newest first
Correct(d, h) == Step(c.x, c.dt, AM[K], << d >> \o SubSeq(h, 1, K-1))

Rhs(x, t, d, n) ==
  /\ c.op # "none" /\ n = Len(c.x) /\ Len(d) = n
  /\ LET j == Len(c.k) + 1 IN
     CASE c.op \in {"start", "init"} ->
            /\ c.op = "init" => c.left > 0
            /\ j <= Len(Starter.b)
            /\ t = Add(c.t, Mul(Starter.c[j], c.dt))
            /\ x = Step(c.x, c.dt, Starter.a[j], c.k)
       [] c.op \in {"ab", "abm"} ->
            IF j = 1 THEN x = c.x /\ t = c.t
            ELSE c.op = "abm" /\ j = 2 /\ x = Predicted /\ t = Add(c.t, c.dt)
       [] c.op = "am" -> j = 1 /\ x = c.pred /\ t = c.t
  /\ LET ks == Append(c.k, d) IN
     c' = IF c.op = "init" /\ Len(ks) = Len(Starter.b)
          THEN [c EXCEPT !.x = Step(c.x, c.dt, Starter.b, ks), !.t = Add(@, c.dt), !.k = <<>>,
                         !.left = @ - 1, !.h = Push(ks[1], @)]
          ELSE [c EXCEPT !.k = ks]
  /\ UNCHANGED <<cfg, mem>>

Done(out, in) ==
  /\ \/ c.op = "start" /\ Len(c.k) = Len(Starter.b) /\ out = Step(c.x, c.dt, Starter.b, c.k)
     \/ c.op = "ab" /\ Len(c.k) = 1 /\ out = Predicted
     \/ c.op = "abm" /\ Len(c.k) = 2 /\ out = Correct(c.k[2], << c.k[1] >> \o c.h)
     \/ c.op = "am" /\ Len(c.k) = 1 /\ out = Correct(c.k[1], c.h)
  /\ IF c.form = "i" THEN in = <<>> ELSE in = c.x
  /\ mem' = IF c.op = "am" THEN mem ELSE Put(c.id, [h |-> Push(c.k[1], c.h)])
  /\ c' = None /\ UNCHANGED cfg

\* explicit initialisation: exactly K-1 starting steps, time and state advanced with them
Init(id, t, dt, x, start) ==
  /\ c.op = "none" /\ id \in DOMAIN mem
  /\ c' = [op |-> "init", id |-> id, form |-> "i", t |-> t, dt |-> dt, x |-> x, h |-> <<>>, k |-> <<>>,
           start |-> start, left |-> K - 1]
  /\ UNCHANGED <<cfg, mem>>
Inited(x, t) ==
  /\ c.op = "init" /\ c.left = 0 /\ x = c.x /\ t = c.t
  /\ mem' = Put(c.id, [h |-> c.h])
  /\ c' = None /\ UNCHANGED cfg

\* the stand-alone corrector: t is the time the predicted state belongs to
OpenAM(id, form, t, dt, x, pred, buf) ==
  /\ c.op = "none" /\ cfg.kind = "am" /\ id \in DOMAIN mem
  /\ c' = [op |-> "am", id |-> id, form |-> form, t |-> t, dt |-> dt, x |-> x, pred |-> pred, h |-> buf, k |-> <<>>]
  /\ UNCHANGED <<cfg, mem>>

Reset(id) == c.op = "none" /\ mem' = Put(id, Fresh) /\ UNCHANGED <<cfg, c>>
IsInit(id, b) == c.op = "none" /\ b = Ready(mem[id].h) /\ UNCHANGED avars
\* the history kept, newest first, as the stepper shows it
Shows(id, buf) == c.op = "none" /\ Len(buf) >= Len(mem[id].h) /\ SubSeq(buf, 1, Len(mem[id].h)) = mem[id].h /\ UNCHANGED avars
Size(id, n) == c.op = "none" /\ mem' = Put(id, [h |-> Usable(mem[id].h, n)]) /\ UNCHANGED <<cfg, c>>
Redim(id, n) == c.op = "none" /\ UNCHANGED avars
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Fresh) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>

Bounded == \A o \in DOMAIN mem : Len(mem[o].h) <= K - 1
OneSize == \A o \in DOMAIN mem : \A p, q \in 1..Len(mem[o].h) : Len(mem[o].h[p]) = Len(mem[o].h[q])
=============================================================================
