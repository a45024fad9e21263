SPECIFICATION MCSpec
CONSTANTS
  H = 4
  W = 4
  MaxLimit = 0
INVARIANTS TypeOK OnlyDeletes KeepsComponents FixedPoint IterBound RunAgrees
