SPECIFICATION Spec
CONSTANTS NRows = 5 Scores = {0, 1, 2}
INVARIANTS AreaCorrect Bounded
PROPERTY Finishes
