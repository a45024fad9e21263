SPECIFICATION Spec
CONSTANTS
  Exact = TRUE
  H = 2
  W = 2
  MaxV = 2
  Anns = 1
INVARIANTS AllCounted Bounded Monotone MatchSurvives OutsideKept FamilyIsMatched UnionAtLeastBest SkipsAbsent
PROPERTIES Finishes
