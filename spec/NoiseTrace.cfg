SPECIFICATION Spec
CONSTANT NZero <- TZero
CONSTANT NMax <- TMax
CONSTANT NInc <- TInc
INVARIANT Report
CHECK_DEADLOCK FALSE
