SPECIFICATION Spec
CONSTANTS
  Exact = TRUE
  H = 2
  W = 2
  MaxV = 1
  Anns = 2
INVARIANTS AllCounted Bounded Monotone MatchSurvives OutsideKept FamilyIsMatched UnionAtLeastBest SkipsAbsent
PROPERTIES Finishes
