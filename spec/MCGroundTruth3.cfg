SPECIFICATION Spec
CONSTANTS Cats = 2
 MaxInst = 3
INVARIANT ReaderFree NothingLost NothingInvented Counts RefusedOnly
CHECK_DEADLOCK FALSE
