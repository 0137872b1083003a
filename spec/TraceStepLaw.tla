---------------------------- MODULE TraceStepLaw ----------------------------
EXTENDS StepLaw, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos
tvars == <<cfg, hist, scen, pos>>
TInit == \E j \in 1..Len(Trace) : scen = j /\ pos = 1 /\ LawStart(Trace[j].cfg)
RosErr(q, v) ==   \* root of the mean of the squares, v in thousandths
  LET n == Len(q.e)
      sk(i) == q.abs + q.rel * Max(Abs(q.x[i]), Abs(q.d[i]))
      RECURSIVE S(_)
      S(i) == IF i = 0 THEN 0 ELSE S(i-1) + (q.e[i] * q.e[i] * Mio) \div (sk(i) * sk(i))
  IN Abs(v * v * n - S(n)) <= v * n + 3 * n
Event(e) ==
  CASE e[1] = "err"  -> Measure(e[2], e[3]) /\ UNCHANGED lawvars
    [] e[1] = "rerr" -> RosErr(e[2], e[3]) /\ UNCHANGED lawvars
    [] e[1] = "verd" -> Measure(e[2], e[3]) /\ e[4] = Within(e[2]) /\ UNCHANGED lawvars
    [] e[1] = "adj"  -> AdjustLaw(e[2]) /\ UNCHANGED lawvars
    [] e[1] = "lim"  -> LimitLaw(e[2], e[3], e[4], e[5]) /\ UNCHANGED lawvars
    [] e[1] = "att"  -> Attempt(e[2], e[3], e[4]) /\ UNCHANGED lawvars
    [] e[1] = "pid"  -> Pid(e[2], e[3])
    [] e[1] = "ros"  -> Ros(e[2], e[3], e[4], e[5])
    [] e[1] = "last" -> LastError(e[2], e[3])
    [] e[1] = "order" -> OrderLaw(e[2], e[3], e[4], e[5], e[6]) /\ UNCHANGED lawvars
    [] e[1] = "copy" -> CopyLaw(e[2], e[3])
    [] OTHER -> FALSE
TNext == \/ /\ pos <= Len(Trace[scen].ev) /\ Event(Trace[scen].ev[pos]) /\ pos' = pos + 1 /\ scen' = scen
         \/ /\ pos > Len(Trace[scen].ev) /\ UNCHANGED tvars
=============================================================================
