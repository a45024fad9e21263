SPECIFICATION Spec
CONSTANTS H = 2
 W = 3
 R = 1
 Instances = TRUE
INVARIANT IgnoredEmpty AbsentEmpty FullNone OrderFree Contains InternalInside Mutual OnlyNear
