SPECIFICATION Spec
CONSTANTS Dists = {75, 200}
 Scales = {0, 50, 100}
INVARIANT LastCallDecides ModeTable RunComplete
PROPERTY RefusalKeeps NamesKept
