SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANT CountsDiffering CleanIffEqual NamedDiffer RefusedOnlyWithoutMate NeverDoneWithoutMate
CHECK_DEADLOCK FALSE
