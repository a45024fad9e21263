SPECIFICATION Spec
CONSTANTS
  Exact = FALSE
  Big = FALSE
INVARIANTS SizesAgree FullScale NothingInvented BorderCleared BorderOnly FlatKept DrawnRight Finished
CHECK_DEADLOCK FALSE
