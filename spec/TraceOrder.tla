----------------------------- MODULE TraceOrder -----------------------------
(* Schemes extracted from the real steppers: the l-th evaluation of the      *)
(* system returned the l-th unit vector, starting from x = 0, t = 0 with     *)
(* dt = 1, so the states handed to the system are the rows of the stage      *)
(* matrix and the result are the weights.  They must have the order the      *)
(* stepper advertises, and that must be the published one.                   *)
EXTENDS Order, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, phi
tvars == <<scen, pos, phi>>
Cf == Trace[scen].cfg
Ns == Len(Cf.rows)
Causal == \A st \in 1..Ns : \A m \in 1..Ns : m >= st => Cf.rows[st][m] = 0
Companion == [q \in 1..Ns |-> Sub(Cf.out[q], Cf.err[q])]
Published == [q \in {"symplectic euler", "sb3a mclachlan", "sb3a m4 mclachlan", "rosenbrock4"} |->
  CASE q = "symplectic euler" -> <<1, 0, 0>> [] q = "rosenbrock4" -> <<4, 4, 3>> [] OTHER -> <<4, 0, 0>>]
\* what is left of the result without the error estimate
Without == [q \in 1..Len(Cf.out) |-> Sub(Cf.out[q], Cf.err[q])]
Advertised ==
  CASE Cf.kind = "rk" -> LET T == Scheme(Cf.scheme) IN
         Cf.order = T.order /\ (Cf.err # <<>> => Cf.sorder = T.sorder /\ Cf.eorder = T.eorder)
    [] Cf.kind = "multi" -> Cf.order = Cf.k
    [] Cf.kind = "adaptive" -> Cf.order = Cf.k /\ Cf.sorder = Cf.k + 1 /\ Cf.eorder = Cf.k
    [] Cf.kind = "number" -> <<Cf.order, Cf.sorder, Cf.eorder>> = Published[Cf.scheme]
    [] OTHER -> TRUE
Good == CASE Cf.kind = "rk" -> Advertised /\ Causal /\ RowSums(Cf.rows, Cf.times)
          [] Cf.kind = "dense" -> Causal /\ RowSums(Cf.rows, Cf.times)
          [] Cf.kind = "multi" -> Advertised /\ Moments(Cf.out, Cf.times, Cf.order)
          [] Cf.kind = "adaptive" -> /\ Advertised /\ Moments(Cf.out, Cf.times, Cf.sorder)
                                     /\ Moments(Without, Cf.times, Cf.eorder) /\ ~Moments(Without, Cf.times, Cf.sorder)
          [] Cf.kind = "number" -> Advertised
Limit == IF Cf.kind \in {"multi", "adaptive", "number"} THEN 0 ELSE Cf.order
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ phi = <<>>
Visit == LET ph == Weights(Cf.rows, pos, phi) IN
  /\ IF Cf.kind = "rk"
     THEN /\ Meets(Cf.out, ph, pos, 1)
          /\ Cf.err # <<>> /\ Trees[pos].ord <= Cf.eorder => Meets(Companion, ph, pos, 1)
     ELSE \A q \in 1..Len(Cf.at) : Meets(Cf.at[q][2], ph, pos, Cf.at[q][1])
  /\ phi' = Append(phi, ph)
End == IF pos > NT THEN TRUE ELSE Trees[pos].ord > Limit
TNext == \/ Good /\ ~End /\ Visit /\ pos' = pos + 1 /\ scen' = scen
         \/ Good /\ End /\ UNCHANGED tvars
=============================================================================
