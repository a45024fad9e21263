SPECIFICATION Spec
CONSTANTS
  P = 1000
  H = 2
  W = 3
  MaxV = 2
INVARIANTS NeverLarger ScaledNeverLarger BorderEmpty NoRadiusKeepsAll PeakSurvives InteriorUntouched SampleBounded
PROPERTIES Finishes
