SPECIFICATION Spec
CONSTANTS MaxClock = 3
 MaxDone = 2
 Which = "timer"
CONSTRAINT Bound
INVARIANT Ordered MarksPast NonNegative
PROPERTY StoppedRefuses BeginStable Independent DoneIsSum
