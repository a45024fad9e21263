SPECIFICATION MCSpec
CONSTANTS
  H = 3
  W = 4
  MaxLimit = 2
INVARIANTS TypeOK OnlyDeletes KeepsComponents FixedPoint IterBound RunAgrees
PROPERTIES Shrinks Terminates
