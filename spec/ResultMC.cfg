SPECIFICATION Spec
CONSTANTS NL = 2 NS = 2
INVARIANTS FitsIsPlain CountIsRight OneEntryPerType
CHECK_DEADLOCK FALSE
