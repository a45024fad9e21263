SPECIFICATION Spec
CONSTANTS H = 2
 W = 4
 R = 1
 Instances = FALSE
INVARIANT IgnoredEmpty AbsentEmpty FullNone OrderFree Contains InternalInside Mutual OnlyNear
