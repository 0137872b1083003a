----------------------------- MODULE Symplectic -----------------------------
(* Symplectic Runge-Kutta-Nystroem steppers: a step drifts the positions     *)
(* with the velocity of the current momenta and kicks the momenta with the   *)
(* force at the positions just reached, once per stage, with the published   *)
(* coefficients.  Velocity Verlet: half kicks with the acceleration at both  *)
(* ends of the step, the acceleration at the end carried over.               *)
EXTENDS Decimals, FiniteSets
VARIABLES cfg, mem, c
syvars == <<cfg, mem, c>>

\* the smaller root of 7/8 stands for the root (all conditions are rational in it)
Root == TLCEval(CHOOSE r \in 0..(P-1) : Mul(r, r) = Q(7,8) /\ \A s \in 0..(r-1) : Mul(s, s) # Q(7,8))
Coef(s) ==
  CASE s = "euler" -> [a |-> <<1>>, b |-> <<1>>]
    [] s = "m4" -> LET z == Div(Root, 3)
                       a1 == Sub(Q(1,2), z) a2 == Add(Q(-1,3), z)
                   IN [a |-> <<a1, a2, Q(2,3), a2, a1>>, b |-> <<1, Q(-1,2), Q(-1,2), 1, 0>>]
    [] s = "sb3a" -> LET a1 == Dec(SB3A_a1[1], SB3A_a1[2])
                         a2 == Neg(Dec(SB3A_a2[1], SB3A_a2[2]))
                         a3 == Sub(Q(1,2), Add(a1, a2))
                         b1 == Q(-3,73) b2 == Q(17,59) b3 == Sub(1, Mul(2, Add(b1, b2)))
                     IN [a |-> <<a1, a2, a3, a3, a2, a1>>, b |-> <<b1, b2, b3, b2, b1, 0>>]
Schemes == {"euler", "m4", "sb3a"}
CoefOf == TLCEval([s \in Schemes |-> Coef(s)])
Co == CoefOf[cfg.scheme]
St == Len(Co.a)

None == [op |-> "none"]
Nothing == [has |-> FALSE, d |-> <<>>, at |-> <<>>]
SyStart(cf) == cfg = cf /\ mem = (0 :> Nothing) /\ c = None
Put(id, m) == (id :> m) @@ mem

----------------------------------------------------------------------------
\* sys = "pair": velocity and force are functions; "force": the velocity is the momentum
Open(id, sys, form, q, p, dt) ==
  /\ c.op = "none" /\ id \in DOMAIN mem /\ cfg.scheme \in Schemes
  /\ c' = [op |-> "step", id |-> id, sys |-> sys, form |-> form, q0 |-> q, p0 |-> p, q |-> q, p |-> p, dt |-> dt, l |-> 1, drifted |-> FALSE]
  /\ UNCHANGED <<cfg, mem>>
Drift(v) == VAdd(c.q, VScale(Mul(Co.a[c.l], c.dt), v))
Kick(f) == VAdd(c.p, VScale(Mul(Co.b[c.l], c.dt), f))
\* the velocity function is called with the current momenta
Vel(p, v, n) ==
  /\ c.op = "step" /\ c.sys = "pair" /\ ~c.drifted /\ c.l <= St
  /\ p = c.p /\ n = Len(c.q)
  /\ c' = [c EXCEPT !.q = Drift(v), !.drifted = TRUE]
  /\ UNCHANGED <<cfg, mem>>
\* the force function is called with the positions just reached
Force(q, f, n) ==
  /\ c.op = "step" /\ c.l <= St
  /\ (c.sys = "pair") = c.drifted
  /\ n = Len(c.p)
  /\ LET qn == IF c.drifted THEN c.q ELSE Drift(c.p) IN
     /\ q = qn
     /\ c' = [c EXCEPT !.q = qn, !.p = Kick(f), !.l = @ + 1, !.drifted = FALSE]
  /\ UNCHANGED <<cfg, mem>>
Done(q, p, inq, inp) ==
  /\ c.op = "step" /\ c.l = St + 1
  /\ q = c.q /\ p = c.p
  /\ IF c.form = "i" THEN inq = <<>> /\ inp = <<>> ELSE inq = c.q0 /\ inp = c.p0
  /\ c' = None /\ UNCHANGED <<cfg, mem>>

----------------------------------------------------------------------------
(* velocity Verlet; given # <<>>: the form that is handed the acceleration   *)
Half == Q(1,2)
Verlet(id, q, p, t, dt, given) ==
  /\ c.op = "none" /\ id \in DOMAIN mem /\ cfg.scheme = "verlet"
  /\ LET own == given = <<>> /\ mem[id].has /\ Len(mem[id].d) = Len(q) IN
     c' = [op |-> "verlet", id |-> id, q |-> q, p |-> p, t |-> t, dt |-> dt, given |-> given,
           acc |-> IF given # <<>> THEN << given >> ELSE IF own THEN << mem[id].d >> ELSE <<>>, carried |-> own]
  /\ UNCHANGED <<cfg, mem>>
NewQ == VAdd(c.q, VAdd(VScale(c.dt, c.p), VScale(Mul(Half, Mul(c.dt, c.dt)), c.acc[1])))
NewP == VAdd(c.p, VScale(Mul(Half, c.dt), VAdd(c.acc[1], c.acc[2])))
Acc(q, p, a, t, n) ==
  /\ c.op \in {"verlet", "init"} /\ n = Len(c.q) /\ Len(a) = n
  /\ p = c.p
  /\ CASE Len(c.acc) = 0 -> q = c.q /\ t = c.t
       [] Len(c.acc) = 1 -> c.op = "verlet" /\ q = NewQ /\ t = Add(c.t, c.dt)
       [] OTHER -> FALSE
  /\ c' = [c EXCEPT !.acc = Append(@, a)]
  /\ UNCHANGED <<cfg, mem>>
VerletDone(q, p, a, inq, inp) ==
  /\ c.op = "verlet" /\ Len(c.acc) = 2
  /\ q = NewQ /\ p = NewP
  /\ IF c.given = <<>>
     THEN /\ a = <<>> /\ inq = <<>> /\ inp = <<>>
          /\ mem' = Put(c.id, [has |-> TRUE, d |-> c.acc[2], at |-> <<NewQ, Add(c.t, c.dt)>>])
     ELSE a = c.acc[2] /\ inq = c.q /\ inp = c.p /\ UNCHANGED mem
  /\ c' = None /\ UNCHANGED cfg
InitSys(id, q, p, t) ==
  /\ c.op = "none"
  /\ c' = [op |-> "init", id |-> id, q |-> q, p |-> p, t |-> t, acc |-> <<>>, carried |-> FALSE]
  /\ UNCHANGED <<cfg, mem>>
InitDone == /\ c.op = "init" /\ Len(c.acc) = 1
            /\ mem' = Put(c.id, [has |-> TRUE, d |-> c.acc[1], at |-> <<c.q, c.t>>])
            /\ c' = None /\ UNCHANGED cfg
InitAcc(id, a) == c.op = "none" /\ mem' = Put(id, [has |-> TRUE, d |-> a, at |-> <<>>]) /\ UNCHANGED <<cfg, c>>
Reset(id) == c.op = "none" /\ mem' = Put(id, Nothing) /\ UNCHANGED <<cfg, c>>
IsInit(id, b) == c.op = "none" /\ b = mem[id].has /\ UNCHANGED syvars
Size(id, n) == /\ c.op = "none"
               /\ mem' = IF mem[id].has /\ Len(mem[id].d) # n THEN Put(id, Nothing) ELSE mem
               /\ UNCHANGED <<cfg, c>>
Redim(id, n) == c.op = "none" /\ UNCHANGED syvars
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Nothing) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>
AccBelongs == c.op = "verlet" /\ c.carried /\ mem[c.id].at # <<>> => mem[c.id].at = <<c.q, c.t>>
=============================================================================
