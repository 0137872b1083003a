----------------------------- MODULE Generation -----------------------------
(* What make_controlled, make_dense_output and integrate promise: the form of  *)
(* the call determines the parameters of the object that is built.             *)
(*   form      arguments                                                       *)
(*   "tol"     abs, rel                   "tol+st"   abs, rel, stepper         *)
(*   "max"     abs, rel, max              "max+st"   abs, rel, max, stepper    *)
(*   "conv"    none: the convenience integrate function                        *)
(* Parameters are opaque tokens; 0 stands for "no bound on the step" and for   *)
(* the default-constructed stepper.                                            *)
EXTENDS Integers, Sequences
Forms == {"tol", "tol+st", "max", "max+st", "conv"}
DefaultTol == -1                     \* the token of the documented 1e-6
Params(form, args) ==
  CASE form = "tol"    -> [abs |-> args[1], rel |-> args[2], max |-> 0, st |-> 0]
    [] form = "tol+st" -> [abs |-> args[1], rel |-> args[2], max |-> 0, st |-> args[3]]
    [] form = "max"    -> [abs |-> args[1], rel |-> args[2], max |-> args[3], st |-> 0]
    [] form = "max+st" -> [abs |-> args[1], rel |-> args[2], max |-> args[3], st |-> args[4]]
    [] form = "conv"   -> [abs |-> DefaultTol, rel |-> DefaultTol, max |-> 0, st |-> 0]
=============================================================================
