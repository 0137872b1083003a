SPECIFICATION MCSpec
CONSTANTS P = 3 Kind = "ctl"
INVARIANTS DerivBelongs DenseBelongs StartExact CarriedExact DenseInterval
PROPERTIES OthersUntouched RejectKeeps
CHECK_DEADLOCK FALSE
