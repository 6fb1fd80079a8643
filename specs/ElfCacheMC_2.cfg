SPECIFICATION Spec
CONSTANTS MaxOps = 2
Paths = {1, 2}
Versions = {1, 2}
Once = TRUE
INVARIANT CacheComplete ViewCurrent NoHalf
