SPECIFICATION Spec
CONSTANT Chains = 16
INVARIANT NothingBad
CHECK_DEADLOCK FALSE
