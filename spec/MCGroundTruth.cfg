SPECIFICATION Spec
CONSTANTS Cats = 2
 MaxInst = 2
INVARIANT ReaderFree NothingLost NothingInvented Counts RefusedOnly
CHECK_DEADLOCK FALSE
