SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS LastIsThere Separate MeanBetween OneIsMean TableAgrees Plottable TextsOK
PROPERTIES OthersUntouched NothingVanishes
CHECK_DEADLOCK FALSE
