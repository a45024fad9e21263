SPECIFICATION Spec
CONSTANTS
  P = 1000
  H = 3
  W = 4
  MaxV = 1
INVARIANTS NeverLarger ScaledNeverLarger BorderEmpty NoRadiusKeepsAll PeakSurvives InteriorUntouched SampleBounded
PROPERTIES Finishes
