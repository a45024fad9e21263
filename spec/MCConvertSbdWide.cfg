SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Confluent NoClash SensitiveAdds OnlyShown BorderIgnored MapsAgree Distinct JoinedRight
PROPERTY AllDone
CHECK_DEADLOCK FALSE
