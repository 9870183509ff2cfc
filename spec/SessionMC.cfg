SPECIFICATION Spec
CONSTANTS Paths = {1, 2} Datums = {1} MaxOps = 7 Once = TRUE
INVARIANTS AcceptedOnly DiskAgrees OnePerPath
PROPERTIES NothingDestroyed EvaluatorsImmutable LoadersKept
