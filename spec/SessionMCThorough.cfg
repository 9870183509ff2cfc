SPECIFICATION Spec
CONSTANTS Paths = {1, 2} Datums = {1, 2} MaxOps = 8 Once = TRUE
INVARIANTS AcceptedOnly DiskAgrees OnePerPath
PROPERTIES NothingDestroyed EvaluatorsImmutable LoadersKept
