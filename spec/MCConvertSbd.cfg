SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Confluent NoClash SensitiveAdds OnlyShown BorderIgnored MapsAgree Distinct JoinedRight
PROPERTY AllDone
CHECK_DEADLOCK FALSE
