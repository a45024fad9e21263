SPECIFICATION Spec
CONSTANTS
  MaxC = 3
  S = 1
INVARIANTS InRange OdsDominates BestNonEmpty BestIsBest PerfectIsOne ApBoundsByPrecision TotalsAdd
