SPECIFICATION Spec
CONSTANTS H = 3
 W = 3
 R = 2
 Instances = FALSE
INVARIANT IgnoredEmpty AbsentEmpty FullNone OrderFree Contains InternalInside Mutual OnlyNear
