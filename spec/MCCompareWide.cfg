SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANT CountsDiffering CleanIffEqual NamedDiffer RefusedOnlyWithoutMate NeverDoneWithoutMate
CHECK_DEADLOCK FALSE
