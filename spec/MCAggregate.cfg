SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  S = 1
INVARIANTS InRange OdsDominates BestNonEmpty BestIsBest PerfectIsOne ApBoundsByPrecision TotalsAdd
PROPERTIES Finishes
