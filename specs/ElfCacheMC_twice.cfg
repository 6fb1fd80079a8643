SPECIFICATION Spec
CONSTANTS MaxOps = 2
Paths = {1, 2}
Versions = {1, 2}
Once = FALSE
INVARIANT CacheComplete ViewCurrent NoHalf
