----------------------------- MODULE RungeKutta -----------------------------
(* The contract of explicit Runge-Kutta steppers, of the error-controlled    *)
(* steppers around them and of the dense-output steppers around those, over  *)
(* an exact field.  A behaviour is a history of calls on any number of       *)
(* stepper objects; every call is refined into the evaluations of the        *)
(* system, the questions put to error checker and step adjuster, and the     *)
(* result.                                                                   *)
(*                                                                           *)
(*  mem   what object id remembers between calls                             *)
(*        has/d/at  derivative carried over, and the point it belongs to     *)
(*        (dense) x t dt current, xo to previous, k stages of the last step  *)
(*  c     the call being executed (op = "none": no call)                     *)
EXTENDS Tableaux, FiniteSets, TLC
VARIABLES cfg, mem, c
rkvars == <<cfg, mem, c>>

Tab == IF cfg.scheme \in {"gen4", "gene5", "genea5"}
       THEN [a |-> cfg.tab.a, b |-> cfg.tab.b, c |-> cfg.tab.c, e |-> cfg.tab.e,
             fsal |-> FALSE, order |-> 4, sorder |-> 4, eorder |-> 3]
       ELSE IF cfg.scheme = "tiny" THEN cfg.tab
       ELSE Scheme(cfg.scheme)
S == Len(Tab.b)

None == [op |-> "none"]
Nothing == [has |-> FALSE, d |-> <<>>, at |-> <<>>, live |-> FALSE]
Put(id, m) == (id :> m) @@ mem

Start(cf) == cfg = cf /\ mem = (0 :> Nothing) /\ c = None

Given(form) == form \in {"iD", "oD"}
InPlace(form) == form \in {"i", "iD"}

----------------------------------------------------------------------------
(* opening a step or an attempted step                                       *)
Carried(m, x) == Tab.fsal /\ m.has /\ Len(m.d) = Len(x)
Open(op, id, form, t, dt, x, d) ==
  /\ c.op = "none" /\ id \in DOMAIN mem
  /\ op \in {"call", "try"}
  /\ Given(form) => Len(d) = Len(x)
  /\ c' = [op |-> op, id |-> id, form |-> form, t |-> t, dt |-> dt, x |-> x, d |-> d,
           k |-> IF Given(form) THEN << d >>
                 ELSE IF Carried(mem[id], x) THEN << mem[id].d >> ELSE <<>>,
           carried |-> ~Given(form) /\ Carried(mem[id], x),
           lim |-> IF op = "call" THEN "ok" ELSE "none", mx |-> 0, ver |-> "none", ev |-> 0, new |-> 0]
  /\ UNCHANGED <<cfg, mem>>

\* the system is evaluated: exactly the next stage, nothing else
Rhs(x, t, d, n) ==
  /\ c.op # "none"
  /\ n = Len(c.x) /\ Len(d) = n
  /\ c.op = "init" => Len(c.k) = 0 /\ x = c.x /\ t = c.t
  /\ c.op # "init" =>
       LET j == Len(c.k) + 1 IN
       /\ j <= S
       /\ c.ver = "none"
       /\ j > 1 => c.lim = "ok"
       /\ t = Add(c.t, Mul(Tab.c[j], c.dt))
       /\ x = Step(c.x, c.dt, Tab.a[j], c.k)
  /\ c' = [c EXCEPT !.k = Append(@, d)]
  /\ UNCHANGED <<cfg, mem>>

New == Step(c.x, c.dt, Tab.b, c.k)
Err == Incr(c.x, c.dt, Tab.e, c.k)
\* what the object remembers when a step from (x,t) has given the stages k
After == IF Tab.fsal /\ ~Given(c.form)
         THEN [has |-> TRUE, d |-> c.k[S], at |-> <<New, Add(c.t, c.dt)>>, live |-> FALSE]
         ELSE Nothing
\* ... when nothing happened
Still == IF Tab.fsal /\ ~Given(c.form) /\ Len(c.k) > 0
         THEN [has |-> TRUE, d |-> c.k[1], at |-> <<c.x, c.t>>, live |-> FALSE]
         ELSE IF Given(c.form) THEN Nothing ELSE mem[c.id]

\* the derivative argument after the call
DerivAfter(d, done) ==
  IF ~Given(c.form) THEN d = <<>>
  ELSE IF ~Tab.fsal THEN d = c.d
  ELSE IF done THEN d = c.k[S]
  ELSE IF InPlace(c.form) THEN d = c.d ELSE TRUE

Done(out, err, in, d) ==
  /\ c.op = "call" /\ Len(c.k) = S
  /\ out = New
  /\ err # <<>> => err = Err
  /\ IF InPlace(c.form) THEN in = <<>> ELSE in = c.x
  /\ DerivAfter(d, TRUE)
  /\ mem' = Put(c.id, After)
  /\ c' = None /\ UNCHANGED cfg

\* the midpoint rule for dense output also hands over all derivatives and the state half way
MidDone(out, mid, derivs, in, d) ==
  /\ c.op = "call" /\ Len(c.k) = S /\ S % 2 = 1
  /\ out = New /\ in = c.x /\ d = c.d
  /\ mid = Step(c.x, c.dt, Tab.a[(S - 1) \div 2 + 1], c.k)
  /\ Len(derivs) >= S - 1 /\ SubSeq(derivs, 1, S - 1) = SubSeq(c.k, 2, S)
  /\ c' = None /\ UNCHANGED <<cfg, mem>>

----------------------------------------------------------------------------
(* error control                                                             *)
Controlled == c.op \in {"try", "dense"} /\ (c.op = "dense" => Tab.fsal)
Limit(dt, ok, mx) ==
  /\ Controlled /\ c.lim = "none" /\ dt = c.dt /\ Len(c.k) <= 1
  /\ IF c.op = "dense" /\ ~ok
     THEN c' = [c EXCEPT !.dt = mx]                       \* refused: again with the maximum
     ELSE c' = [c EXCEPT !.lim = IF ok THEN "ok" ELSE "no", !.mx = mx]
  /\ UNCHANGED <<cfg, mem>>

Check(x, dx, err, dt, ok, v) ==
  /\ Controlled /\ c.lim = "ok" /\ Len(c.k) = S /\ c.ver = "none"
  /\ x = c.x /\ dx = c.k[1] /\ err = Err /\ dt = c.dt
  /\ c' = [c EXCEPT !.ver = IF ok THEN "yes" ELSE "no", !.ev = v]
  /\ UNCHANGED <<cfg, mem>>

Adjust(kind, dt, v, ord, new) ==
  /\ Controlled /\ c.ver \in {"yes", "no"}
  /\ dt = c.dt /\ v = c.ev
  /\ IF c.ver = "yes" THEN kind = "inc" /\ ord = Tab.sorder
                      ELSE kind = "dec" /\ ord = Tab.eorder
  /\ IF c.op = "dense" /\ c.ver = "no"
     THEN c' = [c EXCEPT !.dt = new, !.k = << c.k[1] >>, !.lim = "none", !.ver = "none"]
     ELSE c' = [c EXCEPT !.new = new, !.ver = IF @ = "yes" THEN "accept" ELSE "reject"]
  /\ UNCHANGED <<cfg, mem>>

TryDone(ok, t, dt, out, in, d) ==
  /\ c.op = "try"
  /\ \/ /\ c.ver = "accept" /\ ok                                   \* full advance
        /\ t = Add(c.t, c.dt) /\ dt = c.new /\ out = New
        /\ mem' = Put(c.id, After)
     \/ /\ c.ver = "reject" \/ c.lim = "no"                           \* nothing happened
        /\ ~ok /\ t = c.t
        /\ dt = (IF c.lim = "no" THEN c.mx ELSE c.new)
        /\ InPlace(c.form) => out = c.x
        /\ mem' = Put(c.id, Still)
  /\ IF InPlace(c.form) THEN in = <<>> ELSE in = c.x
  /\ DerivAfter(d, ok)
  /\ c' = None /\ UNCHANGED cfg

----------------------------------------------------------------------------
(* bookkeeping of carried derivatives                                        *)
Reset(id) == c.op = "none" /\ mem' = Put(id, Nothing) /\ UNCHANGED <<cfg, c>>
InitSys(id, x, t) ==
  /\ c.op = "none"
  /\ c' = [op |-> "init", id |-> id, x |-> x, t |-> t, k |-> <<>>]
  /\ UNCHANGED <<cfg, mem>>
InitSysDone ==
  /\ c.op = "init" /\ Len(c.k) = 1
  /\ mem' = Put(c.id, [has |-> TRUE, d |-> c.k[1], at |-> <<c.x, c.t>>, live |-> FALSE])
  /\ c' = None /\ UNCHANGED cfg
InitDeriv(id, d) ==
  /\ c.op = "none"
  /\ mem' = Put(id, [has |-> TRUE, d |-> d, at |-> <<>>, live |-> FALSE])
  /\ UNCHANGED <<cfg, c>>
IsInit(id, b) == c.op = "none" /\ b = mem[id].has /\ UNCHANGED rkvars
\* explicit sizing for another dimension drops what was remembered
Size(id, n) ==
  /\ c.op = "none"
  /\ mem' = IF mem[id].has /\ Len(mem[id].d) # n THEN Put(id, Nothing) ELSE mem
  /\ UNCHANGED <<cfg, c>>
Redim(id, n) == c.op = "none" /\ UNCHANGED rkvars
Copy(a, b) == c.op = "none" /\ a \in DOMAIN mem /\ mem' = Put(b, mem[a]) /\ UNCHANGED <<cfg, c>>
NewObj(b) == c.op = "none" /\ b \notin DOMAIN mem /\ mem' = Put(b, Nothing) /\ UNCHANGED <<cfg, c>>
Drop(b) == c.op = "none" /\ mem' = [o \in DOMAIN mem \ {b} |-> mem[o]] /\ UNCHANGED <<cfg, c>>

----------------------------------------------------------------------------
(* dense output                                                              *)
DenseInit(id, x, t, dt) ==
  /\ c.op = "none"
  /\ mem' = Put(id, [has |-> FALSE, d |-> <<>>, at |-> <<>>, live |-> TRUE, x |-> x, t |-> t, dt |-> dt,
                     stepped |-> FALSE, xo |-> <<>>, to |-> 0, k |-> <<>>])
  /\ UNCHANGED <<cfg, c>>
DenseOpen(id) ==
  /\ c.op = "none" /\ mem[id].live
  /\ LET m == mem[id] IN
     c' = [op |-> "dense", id |-> id, form |-> "i", t |-> m.t, dt |-> m.dt, x |-> m.x, d |-> <<>>,
           k |-> IF Carried(m, m.x) THEN << m.d >> ELSE <<>>, carried |-> Carried(m, m.x),
           lim |-> IF Tab.fsal THEN "none" ELSE "ok", mx |-> 0, ver |-> "none", ev |-> 0, new |-> m.dt]
  /\ UNCHANGED <<cfg, mem>>
DenseClose(told, tnew) ==
  /\ c.op = "dense" /\ Len(c.k) = S
  /\ Tab.fsal => c.ver = "accept"
  /\ told = c.t /\ tnew = Add(c.t, c.dt)
  /\ mem' = Put(c.id, [has |-> Tab.fsal, d |-> IF Tab.fsal THEN c.k[S] ELSE <<>>, at |-> <<New, tnew>>, live |-> TRUE,
                       x |-> New, t |-> tnew, dt |-> c.new, stepped |-> TRUE, xo |-> c.x, to |-> c.t, k |-> c.k])
  /\ c' = None /\ UNCHANGED cfg
At(id, t, x, dt, told, xold) ==
  /\ c.op = "none" /\ mem[id].live
  /\ t = mem[id].t /\ x = mem[id].x /\ dt = mem[id].dt
  /\ mem[id].stepped => told = mem[id].to /\ xold = mem[id].xo
  /\ UNCHANGED rkvars
\* the continuous extension of the last step
Cont(th) == IF cfg.scheme = "euler" THEN << th >> ELSE Dopri5Cont(th)
Calc(id, t, x) ==
  /\ c.op = "none" /\ mem[id].live /\ mem[id].stepped
  /\ LET m == mem[id]
         h == Sub(m.t, m.to)
     IN x = Step(m.xo, h, Cont(Div(Sub(t, m.to), h)), m.k)
  /\ UNCHANGED rkvars

----------------------------------------------------------------------------
(* A carried derivative that is used belongs to the point it is used at.     *)
DerivBelongs == c.op \in {"call", "try", "dense"} /\ c.carried /\ mem[c.id].at # <<>>
                  => mem[c.id].at = <<c.x, c.t>>
\* a dense stepper's remembered derivative belongs to its current point
DenseBelongs == \A o \in DOMAIN mem : mem[o].live /\ mem[o].has => mem[o].at = <<mem[o].x, mem[o].t>>
=============================================================================
