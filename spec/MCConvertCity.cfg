SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Confluent NoClash TestUntouched Nested OnlyTrained
PROPERTY AllDone
CHECK_DEADLOCK FALSE
