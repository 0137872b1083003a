------------------------------ MODULE Tableaux ------------------------------
(* The published explicit Runge-Kutta schemes, as they appear in the         *)
(* literature (Hairer/Norsett/Wanner; Cash/Karp 1990; Fehlberg 1968).        *)
(*  a  strictly lower triangular stage coefficients, row per stage           *)
(*  b  weights, c nodes, e = b - bhat error weights (<<>> if none)           *)
(*  fsal: the last stage is the derivative at the new point                  *)
(*  order, sorder, eorder: advertised order / order used when increasing /   *)
(*  decreasing the step                                                      *)
EXTENDS Field
LOCAL QS(s) == TLCEval([i \in 1..Len(s) |-> Q(s[i][1], s[i][2])])
LOCAL QM(m) == TLCEval([i \in 1..Len(m) |-> QS(m[i])])
LOCAL QDiff(u, v) == TLCEval([i \in 1..Len(u) |-> Sub(Q(u[i][1],u[i][2]), Q(v[i][1],v[i][2]))])

Euler == [a |-> << <<>> >>, b |-> << 1 >>, c |-> << 0 >>, e |-> <<>>,
          fsal |-> FALSE, order |-> 1, sorder |-> 1, eorder |-> 0]

RK4 == [a |-> QM(<< <<>>, << <<1,2>> >>, << <<0,1>>, <<1,2>> >>, << <<0,1>>, <<0,1>>, <<1,1>> >> >>),
        b |-> QS(<< <<1,6>>, <<1,3>>, <<1,3>>, <<1,6>> >>),
        c |-> QS(<< <<0,1>>, <<1,2>>, <<1,2>>, <<1,1>> >>), e |-> <<>>,
        fsal |-> FALSE, order |-> 4, sorder |-> 4, eorder |-> 0]

LOCAL ckb == << <<37,378>>, <<0,1>>, <<250,621>>, <<125,594>>, <<0,1>>, <<512,1771>> >>
LOCAL ckh == << <<2825,27648>>, <<0,1>>, <<18575,48384>>, <<13525,55296>>, <<277,14336>>, <<1,4>> >>
CashKarp == [a |-> QM(<< <<>>, << <<1,5>> >>, << <<3,40>>, <<9,40>> >>,
                  << <<3,10>>, <<-9,10>>, <<6,5>> >>,
                  << <<-11,54>>, <<5,2>>, <<-70,27>>, <<35,27>> >>,
                  << <<1631,55296>>, <<175,512>>, <<575,13824>>, <<44275,110592>>, <<253,4096>> >> >>),
        b |-> QS(ckb), c |-> QS(<< <<0,1>>, <<1,5>>, <<3,10>>, <<3,5>>, <<1,1>>, <<7,8>> >>),
        e |-> QDiff(ckb, ckh), fsal |-> FALSE, order |-> 5, sorder |-> 5, eorder |-> 4]

LOCAL dpb == << <<35,384>>, <<0,1>>, <<500,1113>>, <<125,192>>, <<-2187,6784>>, <<11,84>>, <<0,1>> >>
LOCAL dph == << <<5179,57600>>, <<0,1>>, <<7571,16695>>, <<393,640>>, <<-92097,339200>>, <<187,2100>>, <<1,40>> >>
Dopri5 == [a |-> QM(<< <<>>, << <<1,5>> >>, << <<3,40>>, <<9,40>> >>,
                  << <<44,45>>, <<-56,15>>, <<32,9>> >>,
                  << <<19372,6561>>, <<-25360,2187>>, <<64448,6561>>, <<-212,729>> >>,
                  << <<9017,3168>>, <<-355,33>>, <<46732,5247>>, <<49,176>>, <<-5103,18656>> >>,
                  << <<35,384>>, <<0,1>>, <<500,1113>>, <<125,192>>, <<-2187,6784>>, <<11,84>> >> >>),
        b |-> QS(dpb), c |-> QS(<< <<0,1>>, <<1,5>>, <<3,10>>, <<4,5>>, <<8,9>>, <<1,1>>, <<1,1>> >>),
        e |-> QDiff(dpb, dph), fsal |-> TRUE, order |-> 5, sorder |-> 5, eorder |-> 4]

LOCAL fb == << <<0,1>>, <<0,1>>, <<0,1>>, <<0,1>>, <<0,1>>, <<34,105>>, <<9,35>>, <<9,35>>, <<9,280>>, <<9,280>>, <<0,1>>, <<41,840>>, <<41,840>> >>
LOCAL fh == << <<41,840>>, <<0,1>>, <<0,1>>, <<0,1>>, <<0,1>>, <<34,105>>, <<9,35>>, <<9,35>>, <<9,280>>, <<9,280>>, <<41,840>>, <<0,1>>, <<0,1>> >>
Fehlberg78 == [a |-> QM(<< <<>>, << <<2,27>> >>, << <<1,36>>, <<1,12>> >>,
    << <<1,24>>, <<0,1>>, <<1,8>> >>,
    << <<5,12>>, <<0,1>>, <<-25,16>>, <<25,16>> >>,
    << <<1,20>>, <<0,1>>, <<0,1>>, <<1,4>>, <<1,5>> >>,
    << <<-25,108>>, <<0,1>>, <<0,1>>, <<125,108>>, <<-65,27>>, <<125,54>> >>,
    << <<31,300>>, <<0,1>>, <<0,1>>, <<0,1>>, <<61,225>>, <<-2,9>>, <<13,900>> >>,
    << <<2,1>>, <<0,1>>, <<0,1>>, <<-53,6>>, <<704,45>>, <<-107,9>>, <<67,90>>, <<3,1>> >>,
    << <<-91,108>>, <<0,1>>, <<0,1>>, <<23,108>>, <<-976,135>>, <<311,54>>, <<-19,60>>, <<17,6>>, <<-1,12>> >>,
    << <<2383,4100>>, <<0,1>>, <<0,1>>, <<-341,164>>, <<4496,1025>>, <<-301,82>>, <<2133,4100>>, <<45,82>>, <<45,164>>, <<18,41>> >>,
    << <<3,205>>, <<0,1>>, <<0,1>>, <<0,1>>, <<0,1>>, <<-6,41>>, <<-3,205>>, <<-3,41>>, <<3,41>>, <<6,41>>, <<0,1>> >>,
    << <<-1777,4100>>, <<0,1>>, <<0,1>>, <<-341,164>>, <<4496,1025>>, <<-289,82>>, <<2193,4100>>, <<51,82>>, <<33,164>>, <<12,41>>, <<0,1>>, <<1,1>> >> >>),
    b |-> QS(fb), c |-> QS(<< <<0,1>>, <<2,27>>, <<1,9>>, <<1,6>>, <<5,12>>, <<1,2>>, <<5,6>>, <<1,6>>, <<2,3>>, <<1,3>>, <<1,1>>, <<0,1>>, <<1,1>> >>),
    e |-> QDiff(fb, fh), fsal |-> FALSE, order |-> 8, sorder |-> 8, eorder |-> 7]

\* continuous extension of Dormand/Prince: weights at theta (Hairer/Norsett/Wanner II.6, Shampine)
Dopri5Cont(th) ==
  LET b(i) == Q(dpb[i][1], dpb[i][2])
      X(f, p, q, d) == Div(Mul(f, Sub(p, Mul(q, th))), d)
      X1 == X(5, Big(25587,22523), M(31403016), Big(112820,82432))
      X3 == X(100, M(882725551), M(15701508), Big(327004,10799))
      X4 == X(25, M(443332067), M(31403016), M(1880347072))
      X5 == X(32805, M(23143187), M(3489224), Big(1993167,89632))
      X6 == X(55, M(29972135), M(7076736), M(822651844))
      X7 == X(10, M(7414447), M(829305), M(29380423))
      tm == Sub(th, 1)
      tq == Mul(th, th)
      AA == Mul(tq, Sub(3, Mul(2, th)))
      BB == Mul(tq, tm)
      CC == Mul(tq, Mul(tm, tm))
      DD == Mul(th, Mul(tm, tm))
  IN << Add(Sub(Mul(AA,b(1)), Mul(CC,X1)), DD), 0,
        Add(Mul(AA,b(3)), Mul(CC,X3)), Sub(Mul(AA,b(4)), Mul(CC,X4)),
        Add(Mul(AA,b(5)), Mul(CC,X5)), Sub(Mul(AA,b(6)), Mul(CC,X6)),
        Add(BB, Mul(CC,X7)) >>

\* ---- the modified midpoint rule (Gragg) with n substeps, as an explicit scheme of n+1 stages
LOCAL Unit(l, w, m) == TLCEval([i \in 1..m |-> IF i = l THEN w ELSE 0])
\* state after substep i, as weights of the derivatives; stage of substep i is sg[i+1]
MpW(i, n, sg, m) == LET f[q \in 0..i] == IF q = 0 THEN Unit(0, 0, m)
                                         ELSE IF q = 1 THEN Unit(sg[1], Q(1,n), m)
                                         ELSE VAdd(f[q-2], Unit(sg[q], Q(2,n), m))
                    IN f[i]
LOCAL MpOut(n, sg, m) == VScale(Q(1,2), VAdd(MpW(n-1, n, sg, m), VAdd(MpW(n, n, sg, m), Unit(sg[n+1], Q(1,n), m))))
Midpoint(n) == LET m == n + 1
                   sg == [i \in 1..m |-> i]
               IN [a |-> TLCEval([j \in 1..m |-> SubSeq(MpW(j-1, n, sg, m), 1, j-1)]),
                   b |-> MpOut(n, sg, m), c |-> TLCEval([j \in 1..m |-> Q(j-1, n)]), e |-> <<>>,
                   fsal |-> FALSE, order |-> 2, sorder |-> 2, eorder |-> 0]
\* ---- extrapolation in the square of the step (Gragg/Bulirsch/Stoer) of midpoint results with
\*      2, 4, ..., 2K substeps, one after the other, sharing the first derivative
LOCAL ExStart(i) == 1 + (i-1) * i                       \* stages before block i (1 + 2 + 4 + ... )
LOCAL ExSg(i) == [q \in 1..(2*i+1) |-> IF q = 1 THEN 1 ELSE ExStart(i) + q - 1]
\* T(i,j): extrapolation of column j ending in block i
Neville(i, j, m) ==
  LET T[p \in (1..i) \X (0..j)] ==
        IF p[2] = 0 THEN MpOut(2*p[1], ExSg(p[1]), m)
        ELSE LET up == T[<<p[1], p[2]-1>>]
                 r2 == Sub(Div(Mul(M(p[1]), M(p[1])), Mul(M(p[1]-p[2]), M(p[1]-p[2]))), 1)
             IN VAdd(up, VScale(Inv(r2), VSub(up, T[<<p[1]-1, p[2]-1>>])))
  IN T[<<i,j>>]
Extrapolation(K) ==
  LET m == ExStart(K+1)
      blk(st) == IF st = 1 THEN 1 ELSE CHOOSE i \in 1..K : ExStart(i) < st /\ st <= ExStart(i) + 2*i
      row(st) == IF st = 1 THEN <<>>
                 ELSE LET i == blk(st) IN SubSeq(MpW(st - ExStart(i), 2*i, ExSg(i), m), 1, st-1)
      out == Neville(K, K-1, m)
  IN [a |-> TLCEval([st \in 1..m |-> row(st)]), b |-> out,
      c |-> TLCEval([st \in 1..m |-> IF st = 1 THEN 0 ELSE LET i == blk(st) IN Q(st - ExStart(i), 2*i)]),
      e |-> VSub(out, Neville(K, K-2, m)),
      fsal |-> FALSE, order |-> 2*K, sorder |-> 2*K, eorder |-> 2*K-2]
Mp1 == Midpoint(1)  Mp2 == Midpoint(2)  Mp3 == Midpoint(3)  Mp4 == Midpoint(4)
Mp5 == Midpoint(5)  Mp6 == Midpoint(6)  Mp7 == Midpoint(7)  Mp8 == Midpoint(8)
Mp12 == Midpoint(12)
Extr4 == Extrapolation(2)  Extr6 == Extrapolation(3)  Extr8 == Extrapolation(4)  Extr10 == Extrapolation(5)

Scheme(name) ==
  CASE name \in {"euler"} -> Euler
    [] name \in {"rk4", "rk4c"} -> RK4
    [] name \in {"ck54", "ck54c"} -> CashKarp
    [] name = "dopri5" -> Dopri5
    [] name = "f78" -> Fehlberg78
    [] name = "mp1" -> Mp1 [] name = "mp2" -> Mp2 [] name = "mp3" -> Mp3 [] name = "mp4" -> Mp4
    [] name = "mp5" -> Mp5 [] name = "mp6" -> Mp6 [] name = "mp7" -> Mp7 [] name = "mp8" -> Mp8
    [] name = "mp12" -> Mp12
    [] name = "extr4" -> Extr4 [] name = "extr6" -> Extr6 [] name = "extr8" -> Extr8
    [] name = "extr10" -> Extr10
=============================================================================
