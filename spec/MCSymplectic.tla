---------------------------- MODULE MCSymplectic ----------------------------
(* Every history of calls on velocity Verlet and on the kick/drift methods   *)
(* over a small field, for systems taken from a fixed table; and the         *)
(* consequences the published coefficients have (checked in the big field).  *)
EXTENDS Symplectic
CONSTANT MaxOps, Scheme
VARIABLES n, cur
\* acceleration / velocity / force: some function of position, momentum and time
A1(q, p, t) == << (3*q[1]*q[1] + 2*p[1] + t*q[1] + 1) % P >>
V1(p) == << (p[1]*p[1] + 2*p[1]) % P >>
F1(q) == << (5*q[1]*q[1] + q[1] + 3) % P >>
MInit == SyStart([scheme |-> Scheme]) /\ n = 0 /\ cur = [o \in {0} |-> << <<1>>, <<2>>, 0 >>]
Ids == DOMAIN mem
Begin == /\ c.op = "none" /\ n < MaxOps /\ n' = n + 1
         /\ \E id \in Ids, dt \in {1, 3} :
              /\ IF Scheme = "verlet"
                 THEN \E g \in {<<>>, << 2 >>} : Verlet(id, cur[id][1], cur[id][2], cur[id][3], dt, g)
                 ELSE \E s \in {"pair", "force"}, f \in {"i", "o"} : Open(id, s, f, cur[id][1], cur[id][2], dt)
              /\ UNCHANGED cur
Eval == /\ c.op # "none" /\ UNCHANGED <<n, cur>>
        /\ IF c.op \in {"verlet", "init"}
           THEN /\ Len(c.acc) < (IF c.op = "init" THEN 1 ELSE 2)
                /\ LET q == IF Len(c.acc) = 0 THEN c.q ELSE NewQ
                       t == IF Len(c.acc) = 0 THEN c.t ELSE Add(c.t, c.dt)
                   IN Acc(q, c.p, A1(q, c.p, t), t, 1)
           ELSE IF c.sys = "pair" /\ ~c.drifted
           THEN Vel(c.p, V1(c.p), 1)
           ELSE LET q == IF c.drifted THEN c.q ELSE Drift(c.p) IN Force(q, F1(q), 1)
Finish == /\ UNCHANGED n
          /\ IF c.op = "verlet"
             THEN /\ VerletDone(NewQ, NewP, IF c.given = <<>> THEN <<>> ELSE c.acc[2], IF c.given = <<>> THEN <<>> ELSE c.q, IF c.given = <<>> THEN <<>> ELSE c.p)
                  /\ IF c.given = <<>> THEN cur' = [cur EXCEPT ![c.id] = << NewQ, NewP, Add(c.t, c.dt) >>] ELSE UNCHANGED cur
             ELSE IF c.op = "step"
             THEN /\ Done(c.q, c.p, IF c.form = "i" THEN <<>> ELSE c.q0, IF c.form = "i" THEN <<>> ELSE c.p0)
                  /\ cur' = [cur EXCEPT ![c.id] = << c.q, c.p, 0 >>]
             ELSE InitDone /\ UNCHANGED cur
Other == /\ n < MaxOps /\ n' = n + 1 /\ c.op = "none"
         /\ \E id \in Ids :
              \/ Copy(id, 1) /\ cur' = (1 :> cur[id]) @@ cur
              \/ Reset(id) /\ Scheme = "verlet" /\ cur' = [cur EXCEPT ![id] = << <<3>>, <<1>>, 2 >>]
              \/ Scheme = "verlet" /\ InitSys(id, cur[id][1], cur[id][2], cur[id][3]) /\ UNCHANGED cur
MNext == Begin \/ Eval \/ Finish \/ Other
\* an acceleration carried over belongs to the place the object is at
Belongs == c.op = "none" => \A id \in Ids : mem[id].has => mem[id].at = <<cur[id][1], cur[id][3]>>
=============================================================================
