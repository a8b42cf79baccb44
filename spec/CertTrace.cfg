SPECIFICATION Spec
CONSTANT Before <- TBefore
INVARIANT Report
CHECK_DEADLOCK FALSE
