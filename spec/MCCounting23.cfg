SPECIFICATION Spec
CONSTANTS
  Exact = TRUE
  H = 2
  W = 3
  MaxV = 1
  Anns = 1
INVARIANTS AllCounted Bounded Monotone MatchSurvives OutsideKept FamilyIsMatched UnionAtLeastBest SkipsAbsent
