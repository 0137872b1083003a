----------------------------- MODULE TraceShape ------------------------------
(*   <<"can", kind, b>>                 is_resizeable                           *)
(*   <<"same", kind, s1, s2, b>>        same_size                               *)
(*   <<"resize", kind, s1, s2, after>>  resize                                  *)
(*   <<"adjust", kind, can, s1, s2, after, b>>  adjust_size_by_resizeability    *)
(*   <<"policy", p, kind, can>>         a new resizer with an empty wrapper      *)
(*   <<"ask", s, after, b>>             one adjust_size of it                    *)
(*   <<"clone">>                        go on with a copy of resizer and wrapper *)
(*   <<"copy", kind, v, w, src>>        copy: values, copied values, source after *)
(*   <<"instance", same object, b>>     same_instance                           *)
EXTENDS Shape, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES scen, pos, rz
tvars == <<scen, pos, rz>>
TInit == scen \in 1..Len(Trace) /\ pos = 1 /\ rz = [p |-> "none"]
Resizeable == {"vector", "vector float", "ublas vector", "matrix", "matrix to vector", "permutation to vector", "multi_array 1", "multi_array 2", "multi_array 3", "fusion", "eigen vector",
               "eigen matrix", "eigen array", "openmp_state", "vector to range"}
TEvent(e) ==
  \/ e[1] = "can" /\ e[3] = (e[2] \in Resizeable) /\ rz' = rz
  \/ e[1] = "same" /\ e[5] = Same(e[2], e[3], e[4]) /\ rz' = rz
  \/ e[1] = "resize" /\ e[5] = Wanted(e[2], e[4]) /\ rz' = rz
  \/ e[1] = "adjust" /\ <<e[6], e[7]>> = Adjust(e[2], e[3], e[4], e[5]) /\ rz' = rz
  \/ e[1] = "policy" /\ rz' = [p |-> e[2], kind |-> e[3], can |-> e[4], used |-> FALSE, shape |-> e[5]]
  \/ e[1] = "ask" /\ rz.p # "none"
     /\ <<e[3], e[4]>> = After(rz.p, rz.kind, rz.can, rz.used, rz.shape, e[2])
     /\ rz' = [rz EXCEPT !.used = TRUE, !.shape = e[3]]
  \/ e[1] = "clone" /\ e[2] = rz.shape /\ rz' = rz
  \/ e[1] = "copy" /\ e[4] = e[3] /\ e[5] = e[3] /\ rz' = rz
  \/ e[1] = "instance" /\ e[3] = e[2] /\ rz' = rz
TNext ==
  \/ /\ pos <= Len(Trace[scen].ev)
     /\ TEvent(Trace[scen].ev[pos])
     /\ pos' = pos + 1 /\ scen' = scen
  \/ /\ pos > Len(Trace[scen].ev) /\ pos > 1
     /\ UNCHANGED tvars
=============================================================================
