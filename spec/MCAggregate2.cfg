SPECIFICATION Spec
CONSTANTS
  MaxC = 1
  S = 2
INVARIANTS InRange OdsDominates BestNonEmpty BestIsBest PerfectIsOne ApBoundsByPrecision TotalsAdd
PROPERTIES Finishes
