------------------------------ MODULE TraceSums ------------------------------
(* The built-in operations over the prime field: scale_sumN( a ) makes the   *)
(* first operand the combination of the others and changes nothing else.     *)
EXTENDS Field, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<scen, pos>>
TInit == scen \in 1..Len(Trace) /\ pos = 1

First(c, k) ==      \* element k of the first operand afterwards
  CASE c.kind = "sum"   -> Dot(c.a, [l \in 1..c.n |-> IF c.alias = l THEN c.s[1][k] ELSE c.s[l+1][k]], c.n)
    [] c.kind = "swap"  -> Add(Mul(c.a[1], c.s[2][k]), Mul(c.a[2], c.s[3][k]))
    [] c.kind = "scale" -> Mul(c.a[1], c.s[1][k])
After(c) == [j \in 1..Len(c.s) |-> [k \in 1..Len(c.s[1]) |->
              IF j = 1 THEN First(c, k)
              ELSE IF j = 2 /\ c.kind = "swap" THEN c.s[1][k] ELSE c.s[j][k]]]
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ LET e == Trace[scen].ev[pos] IN e[1] = "mem" /\ e[2] = After(Trace[scen].cfg)
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev)
     /\ UNCHANGED tvars
=============================================================================
