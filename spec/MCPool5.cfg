SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxW = 3
 MaxC = 3
INVARIANT NeverTwice OnlyDelivered PrefixWhenOrdered Complete NoPartial
PROPERTY Ends Refines
