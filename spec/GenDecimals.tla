----------------------------- MODULE GenDecimals -----------------------------
EXTENDS Decimals, Json, IOUtils
VARIABLE done
All == << SB3A_a1, SB3A_a2,
          RO_d4, RO_c21, RO_a21, RO_c31, RO_c32, RO_a31, RO_a32, RO_c41, RO_c42, RO_c43, RO_a41, RO_a42, RO_a43, RO_c51, RO_c52, RO_c53, RO_c54, RO_a51, RO_a52, RO_a53, RO_a54, RO_c61, RO_c62, RO_c63, RO_c64, RO_c65, RO_d21, RO_d22, RO_d23, RO_d24, RO_d25, RO_d31, RO_d32, RO_d33, RO_d34, RO_d35 >>
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.OUT, [k \in 1..Len(All) |-> [int |-> All[k][1], groups |-> All[k][2], value |-> Dec(All[k][1], All[k][2])]])
=============================================================================
