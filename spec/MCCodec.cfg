SPECIFICATION Spec
CONSTANTS Counts = {1, 2, 8, 9}
 Wide = {0, 1, 7, 8, 15, 16, 23}
INVARIANT RoundTrip Prefixes Partial BytesFit RgbEnough AnyIsNonzero
