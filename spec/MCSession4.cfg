SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Inputs = {1, 2}
 Keys = {1, 2}
 Gens = {0, 1}
 MaxSteps = 4
 Reseeds = TRUE
INVARIANTS TypeOK Reproducible IsFunction
PROPERTIES NeverForgets
CHECK_DEADLOCK FALSE
