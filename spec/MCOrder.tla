------------------------------- MODULE MCOrder -------------------------------
(* The published schemes of Tableaux and the multistep formulas of Adams     *)
(* have the orders they are listed with, and no higher one.                  *)
EXTENDS Order
VARIABLES name, at, phi
ovars == <<name, at, phi>>
Names == {"euler", "rk4", "ck54", "dopri5", "f78", "mp1", "mp2", "mp3", "mp8", "extr4", "extr6", "extr8"} \cup (IF MaxOrd >= 10 THEN {"extr10"} ELSE {})
T == Scheme(name)
Init == name \in Names /\ at = 0 /\ phi = <<>>
Next == /\ at < NT /\ Trees[at+1].ord <= T.order
        /\ at' = at + 1 /\ phi' = Append(phi, Weights(T.a, at + 1, phi)) /\ UNCHANGED name
Companion == [q \in 1..Len(T.b) |-> Sub(T.b[q], T.e[q])]
OrderHolds == at > 0 => Meets(T.b, phi[at], at, 1)
EmbeddedHolds == at > 0 /\ T.e # <<>> /\ Trees[at].ord <= T.eorder => Meets(Companion, phi[at], at, 1)
RowsHold == RowSums(T.a, T.c)
ContHolds == name = "dopri5" /\ at > 0 /\ Trees[at].ord <= 4 =>
               \A th \in {0, 1, 2, 17, 30000} : Meets(Dopri5Cont(th), phi[at], at, th)
TreeCount == \A n \in 1..MaxOrd : Count(n) = << 1, 1, 2, 4, 9, 20, 48, 115, 286, 719 >>[n]
ASSUME TreeCount
=============================================================================
