SPECIFICATION Spec
CONSTANTS MaxClock = 1
 MaxDone = 4
 Which = "bar"
CONSTRAINT Bound
INVARIANT Ordered MarksPast NonNegative
PROPERTY StoppedRefuses BeginStable Independent DoneIsSum
