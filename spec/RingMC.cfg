SPECIFICATION Spec
CONSTANTS B = 4 N = 2
INVARIANTS RangeIsWalk RangeIsOrder BothEnds ClosestIsWalk ExactFirst
CHECK_DEADLOCK FALSE
