SPECIFICATION Spec
CONSTANTS Files = 4
 Models = {"m", "n"}
 MaxRuns = 2
 FileNames <- FourNames
INVARIANT KeptFromBefore OwnContent CompleteAfterFullRun NothingElse
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
