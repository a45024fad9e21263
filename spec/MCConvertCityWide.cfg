SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Confluent NoClash TestUntouched Nested OnlyTrained
PROPERTY AllDone
CHECK_DEADLOCK FALSE
