SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  MaxPx = 4
INVARIANTS Valid NeverBetter LargestFirst CardBound MaxIsMatching Irrelevant Symmetric
