SPECIFICATION Spec
CONSTANTS NL = 4 NS = 4
INVARIANTS FitsIsPlain CountIsRight OneEntryPerType
CHECK_DEADLOCK FALSE
