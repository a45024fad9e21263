SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS LastIsThere Separate MeanBetween OneIsMean TableAgrees Plottable TextsOK
PROPERTIES OthersUntouched NothingVanishes
CHECK_DEADLOCK FALSE
