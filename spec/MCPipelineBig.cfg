SPECIFICATION Spec
CONSTANTS
  Exact = FALSE
  Big = TRUE
INVARIANTS SizesAgree FullScale NothingInvented BorderCleared BorderOnly FlatKept DrawnRight Finished
CHECK_DEADLOCK FALSE
