SPECIFICATION Spec
CONSTANTS
  H = 2
  W = 3
  MaxPx = 6
INVARIANTS Valid NeverBetter LargestFirst CardBound MaxIsMatching Irrelevant Symmetric
