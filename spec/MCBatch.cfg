SPECIFICATION Spec
CONSTANTS Files = 3
 Models = {"m"}
 MaxRuns = 2
 FileNames <- ThreeNames
INVARIANT KeptFromBefore OwnContent CompleteAfterFullRun NothingElse
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
