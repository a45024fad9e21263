SPECIFICATION Spec
INVARIANTS MalformedWritesNothing WrittenMeansUnderstood OutputWhereAsked OptionsArrive
PROPERTIES Progress
