SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxW = 2
 MaxC = 2
INVARIANT NeverTwice OnlyDelivered PrefixWhenOrdered Complete NoPartial
PROPERTY Ends Refines
