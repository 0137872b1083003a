------------------------------ MODULE StepLaw -------------------------------
(* The error measure and the step-size laws.  Errors are exact powers of     *)
(* small rationals, so that the published laws (which are products of powers *)
(* of errors and steps) are relations between integers; measured factors are *)
(* numbers of millionths.                                                    *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, hist
lawvars == <<cfg, hist>>
Mio == 1000000
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE IPow(_,_)
IPow(a, e) == IF e = 0 THEN 1 ELSE a * IPow(a, e-1)

\* what an adjuster object remembers: see the sections below
Fresh == [first |-> TRUE, rej |-> FALSE, errs |-> <<>>, dts |-> <<>>, init |-> 0]
LawStart(cf) == cfg = cf /\ hist = (0 :> Fresh)

----------------------------------------------------------------------------
(* error measure: integers e (error), x, d (derivative) per component,       *)
(* tolerances and weights integers too; v the measured result, in 10^-5      *)
Weight(i, q) == q.abs + q.rel * (q.ax * Abs(q.x[i]) + q.ad * Abs(q.dt) * Abs(q.d[i]))
Fifth == 100000
Close(v, n, w) == Abs(v * w - Abs(n) * Fifth) <= w          \* v = |n|/w
Below(v, n, w) == Abs(n) * Fifth <= v * w + w
Measure(q, v) ==
  /\ \A i \in 1..Len(q.e) : Below(v, q.e[i], Weight(i, q))
  /\ \E i \in 1..Len(q.e) : Close(v, q.e[i], Weight(i, q))
\* accepted exactly when no component exceeds one
Within(q) == \A i \in 1..Len(q.e) : Abs(q.e[i]) <= Weight(i, q)

----------------------------------------------------------------------------
(* the elementary adjuster.  err = (u/d)^k with k the root the law takes.    *)
(* dt, mx in ticks; f = millionths of new/old; same, atmax: new = old, new = mx exactly *)
Same(r) == r.f = Mio /\ r.same
\* factor num/den (in lowest terms of the law) applied to dt and then limited
Limited(r, num, den) ==      \* num/den * |dt| against |mx|; units: num, den <= 10^4
  IF r.mx # 0 /\ num * Abs(r.dt) > den * Abs(r.mx) THEN r.atmax
  ELSE IF r.mx # 0 /\ num * Abs(r.dt) = den * Abs(r.mx) THEN r.atmax \/ Abs(r.f * den - num * Mio) <= den
  ELSE Abs(r.f * den - num * Mio) <= den
\* after a rejection: max(0.9 * d/u, 1/5)
Decrease(r) == IF 45 * r.d <= 10 * r.u THEN Limited(r, 1, 5) ELSE Limited(r, 9 * r.d, 10 * r.u)
\* after acceptance: nothing unless err < 1/2; errors below 5^-order count as that
Small(r) == 2 * IPow(r.u, r.k) < IPow(r.d, r.k)
Increase(r) == IF ~Small(r) THEN Same(r)
               ELSE IF 5 * r.u <= r.d THEN Limited(r, 9, 2) ELSE Limited(r, 9 * r.d, 10 * r.u)
Sign(r) == r.sgn = 1                                     \* new step has the sign of the old one
AdjustLaw(r) == Sign(r) /\ (IF r.kind = "dec" THEN Decrease(r) ELSE Increase(r))
\* the maximum is refused to be exceeded, in the direction of the step
LimitLaw(dt, mx, ok, got) == got = mx /\ ok = (mx = 0 \/ Abs(dt) <= Abs(mx))

----------------------------------------------------------------------------
(* a controlled step through a stepper whose error is (u/d)^k (k the root of *)
(* the branch taken) in one component and smaller in the others              *)
Attempt(r, res, adv) ==
  IF r.mx # 0 /\ Abs(r.dt) > Abs(r.mx)
  THEN ~res /\ adv = 0 /\ r.atmax /\ r.evals = 0
  ELSE /\ r.evals = 1
       /\ IF r.u <= r.d THEN res /\ adv = 1 /\ Increase(r) /\ Sign(r)
                        ELSE ~res /\ adv = 0 /\ Decrease(r) /\ Sign(r)

----------------------------------------------------------------------------
(* PID control.  All errors and steps are powers of one base: err[i] is base *)
(* to the (36*(s+1))*a[i], dt is base to the (36*(s+1))*k.  e = exponent of  *)
(* the uncut factor in the norm, 1 + atan(base^e - 1) the factor.            *)
Coefs(type) ==   \* in 144ths: beta1 beta2 beta3 alpha1 alpha2
  CASE type = "BASIC"   -> << 144, 0, 0, 0, 0 >>
    [] type = "H0211"   -> << 72, 72, 0, 72, 0 >>
    [] type = "H211b"   -> << 144, 288, 0, 144, 0 >>      \* fifths: see Den
    [] type = "H211PI"  -> << 24, 48, 0, 0, 0 >>
    [] type = "H0312"   -> << 36, 144, 36, 108, 36 >>
    [] type = "H312b"   -> << 24, 48, 24, 72, 24 >>
    [] type = "H312PID" -> << 8, 32, 8, 0, 0 >>
    [] type = "H0321"   -> << 180, 72, -108, -36, -108 >>
    [] type = "H321"    -> << 48, 8, -40, -45, -24 >>
Den(type) == IF type = "H211b" THEN 720 ELSE 144
\* exponents are given in units in which everything is a whole number: the
\* exponent of the error is L*a, and L*coefficient/Den is an integer
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE Min(s[1], MinOf(Tail(s)))
NewErr(m, r) == << r.a >> \o m.errs
Expo(m, r) ==
  LET n == Len(r.a) co == Coefs(cfg.type) D == Den(cfg.type)
      E == NewErr(m, r) K == << r.k >> \o m.dts
  IN IF m.init >= 2
     THEN MinOf([i \in 1..n |-> -(co[1] * E[1][i] + co[2] * E[2][i] + co[3] * E[3][i]
                                  + co[4] * (K[1] - K[2]) + co[5] * (K[2] - K[3])) * (r.L \div D)])
     ELSE MinOf([i \in 1..n |-> -(7 * E[1][i] * (r.L \div 10))])
\* with base 1.004 and L = 720: f >= 0.9 (history kept) <=> e >= -26; f >= 2 <=> e >= 236; f >= 0.95 <=> e >= -12
\* maximum step: "none", or dt/8, 2 dt, 0.95 dt
Cut(e) == CASE cfg.mx = "none" -> FALSE [] cfg.mx = "eighth" -> TRUE [] cfg.mx = "double" -> e >= 236 [] cfg.mx = "less" -> e >= -12
Pid(id, r) ==
  /\ id \in DOMAIN hist
  /\ \A m \in {hist[id]} : \A e \in {Expo(m, r)} :
       /\ r.sgn = 1
       /\ IF Cut(e) THEN r.atmax ELSE r.e = (IF e > 5000 THEN 888888 ELSE e)    \* an error of zero is a = -1000
       /\ LET acc == IF Cut(e) THEN cfg.mx # "eighth" ELSE e >= -26 IN
          hist' = (id :> [m EXCEPT !.init = IF acc THEN @ + 1 ELSE 0,
                                   !.errs = IF acc THEN SubSeq(<< r.a >> \o @, 1, Min(2, Len(@) + 1)) ELSE @,
                                   !.dts = IF acc THEN SubSeq(<< r.k >> \o @, 1, Min(2, Len(@) + 1)) ELSE @]) @@ hist
  /\ UNCHANGED cfg

----------------------------------------------------------------------------
(* Rosenbrock controller: err = 2^(4a) (a = -1000: zero), dt = +-2^k.        *)
(* g = millionths of old/new step (the factor it is divided by).             *)
Lo == 166667   Hi == 5000000
Clamp(v) == Max(Lo, Min(Hi, v))
\* 2^e / 0.9 in millionths, limited to [1/6, 5]
PowNine(e) == IF e >= 3 THEN Hi ELSE IF e <= -3 THEN Lo
              ELSE Clamp(IF e >= 0 THEN (IPow(2, e) * 10000000) \div 9 ELSE 10000000 \div (9 * IPow(2, -e)))
\* 2^e * 0.01^(-1/4) / 0.9
PowFloor(e) == IF e >= 1 THEN Hi ELSE IF e <= -5 THEN Lo
               ELSE Clamp(IF e >= 0 THEN IPow(2, e) * 3513642 ELSE 3513642 \div IPow(2, -e))
Near(a, b) == Abs(a - b) <= 3
\* previous error below 1/100: 2^(4a) < 0.01  <=>  a <= -2
RosFac(m, r) ==
  LET one == IF r.a = -1000 THEN Lo ELSE PowNine(r.a)
      ex == (m.dts[1] - r.k) + 2 * r.a
      two == IF m.first THEN Lo
             ELSE IF r.a = -1000 THEN Lo
             ELSE IF m.errs[1] <= -2 THEN PowFloor(ex) ELSE PowNine(ex - m.errs[1])
  IN IF r.a > 0 THEN one ELSE Max(one, two)
Ros(id, r, res, adv) ==
  /\ id \in DOMAIN hist
  /\ \A m \in {hist[id]} :
     IF r.mx # 0 /\ Abs(r.dt) > Abs(r.mx)
     THEN ~res /\ adv = 0 /\ r.atmax /\ r.evals = 0 /\ UNCHANGED hist
     ELSE /\ r.evals = 1 /\ r.sgn = 1
          /\ \A fac \in {RosFac(m, r)} :
             LET g == IF r.a <= 0 /\ m.rej THEN Max(fac, Mio) ELSE fac
                 over == r.a <= 0 /\ r.mx # 0 /\ (g \div 1000) * Abs(r.mx) < 1000 * Abs(r.dt)
                 edge == r.a <= 0 /\ r.mx # 0 /\ Abs((g \div 1000) * Abs(r.mx) - 1000 * Abs(r.dt)) <= 2 * Abs(r.mx) + 2
             IN /\ res = (r.a <= 0) /\ adv = (IF res THEN 1 ELSE 0)
                /\ (edge /\ (r.atmax \/ Near(r.g, g))) \/ (~edge /\ (IF over THEN r.atmax ELSE Near(r.g, g)))
          /\ hist' = (id :> IF r.a <= 0 THEN [m EXCEPT !.first = FALSE, !.rej = FALSE, !.errs = << r.a >>, !.dts = << r.k >>]
                            ELSE [m EXCEPT !.rej = TRUE]) @@ hist
  /\ UNCHANGED cfg
\* the reported last error is that of the last accepted step, at least 1/100: exponent or floor
LastError(id, a) == id \in DOMAIN hist /\ (IF hist[id].first THEN a = -1000
                       ELSE a = (IF hist[id].errs[1] <= -2 THEN -2 ELSE hist[id].errs[1])) /\ UNCHANGED lawvars

CopyLaw(a, b) == a \in DOMAIN hist /\ hist' = (b :> hist[a]) @@ hist /\ UNCHANGED cfg
----------------------------------------------------------------------------
(* order control: e = estimates of orders q-2, q-1, q, q+1 (integer vectors) *)
RECURSIVE Largest(_)
Largest(v) == IF v = <<>> THEN 0 ELSE Max(Abs(v[1]), Largest(SubSeq(v, 2, Len(v))))
OrderLaw(q, init, top, e, got) ==
  /\ got \in (q-1)..(q+1) /\ got >= 1
  /\ IF init < q THEN got = q + 1                         \* still starting
     ELSE /\ got <= top
          /\ got = q - 1 => Largest(e[2]) < Largest(e[3]) \/ (q = 2 /\ Largest(e[2]) = 0)
          /\ got = q + 1 => 2 * Largest(e[4]) < Largest(e[3])
          /\ (q > 2 /\ Largest(e[1]) < Largest(e[3]) /\ Largest(e[2]) < Largest(e[3])) => got = q - 1
          /\ (q < top /\ 4 * Largest(e[4]) < Largest(e[3]) /\ (q > 1 => Largest(e[2]) > Largest(e[3]))) => got = q + 1
=============================================================================
