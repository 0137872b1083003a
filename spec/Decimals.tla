------------------------------ MODULE Decimals ------------------------------
(* Published decimal constants.  A decimal is its integer part and the groups *)
(* of four digits behind the point.                                           *)
EXTENDS Field
Dec(int, groups) ==   \* value in the field
  LET RECURSIVE V(_)
      V(n) == IF n = 0 THEN M(int) ELSE Add(Mul(V(n-1), 10000), M(groups[n]))
      RECURSIVE Scale(_)
      Scale(n) == IF n = 0 THEN 1 ELSE Mul(Scale(n-1), 10000)
  IN Div(V(Len(groups)), Scale(Len(groups)))
\* McLachlan 1995, symplectic Runge-Kutta-Nystroem SB3A, six stages
SB3A_a1 == << 0, <<4051, 8861, 8395, 2522, 7722>> >>
SB3A_a2 == << 0, <<2871, 4404, 816, 5240, 8900>> >>      \* negative
\* Hairer, Wanner: Solving Ordinary Differential Equations II, the method RODAS
RO_d4 == << 0, <<362, 0, 0, 2, 3000>> >>      \* negative
RO_c21 == << 5, <<6688>> >>      \* negative
RO_a21 == << 1, <<5440>> >>
RO_c31 == << 2, <<4300, 9335, 6833, 8750>> >>      \* negative
RO_c32 == << 0, <<2063, 5991, 5709, 1915>> >>      \* negative
RO_a31 == << 0, <<9466, 7852, 8081, 5826>> >>
RO_a32 == << 0, <<2557, 116, 9898, 3284>> >>
RO_c41 == << 0, <<1073, 5290, 5815, 1375>> >>      \* negative
RO_c42 == << 9, <<5945, 6225, 1023, 3550>> >>      \* negative
RO_c43 == << 20, <<4702, 8614, 8096, 1600>> >>      \* negative
RO_a41 == << 3, <<3148, 2518, 7068, 5210>> >>
RO_a42 == << 2, <<8961, 2401, 5972, 2010>> >>
RO_a43 == << 0, <<9986, 4191, 3997, 7817>> >>
RO_c51 == << 7, <<4964, 4331, 3967, 6470>> >>
RO_c52 == << 10, <<2468, 431, 4643, 5200>> >>      \* negative
RO_c53 == << 33, <<9999, 352, 8199, 500>> >>      \* negative
RO_c54 == << 11, <<7089, 893, 2061, 6000>> >>
RO_a51 == << 1, <<2212, 2450, 9226, 6410>> >>
RO_a52 == << 6, <<191, 3448, 1288, 6290>> >>
RO_a53 == << 12, <<5370, 8332, 9320, 8700>> >>
RO_a54 == << 0, <<6878, 8603, 6105, 8950>> >>      \* negative
RO_c61 == << 8, <<832, 4679, 5921, 5220>> >>
RO_c62 == << 7, <<9811, 3298, 8064, 8930>> >>      \* negative
RO_c63 == << 31, <<5215, 9432, 8743, 7100>> >>      \* negative
RO_c64 == << 16, <<3193, 543, 1231, 3600>> >>
RO_c65 == << 6, <<588, 1823, 8834, 540>> >>      \* negative
RO_d21 == << 10, <<1262, 3508, 3445, 8600>> >>
RO_d22 == << 7, <<4879, 9587, 7610, 1670>> >>      \* negative
RO_d23 == << 34, <<8009, 1861, 5557, 4700>> >>      \* negative
RO_d24 == << 7, <<9927, 7170, 7568, 8230>> >>      \* negative
RO_d25 == << 1, <<251, 3772, 3295, 6620>> >>
RO_d31 == << 0, <<6762, 8033, 9280, 1253>> >>      \* negative
RO_d32 == << 6, <<877, 1465, 1680, 150>> >>
RO_d33 == << 16, <<4308, 4320, 8924, 7800>> >>
RO_d34 == << 24, <<7672, 2511, 4183, 8600>> >>
RO_d35 == << 6, <<5943, 8912, 5716, 8720>> >>      \* negative
=============================================================================
