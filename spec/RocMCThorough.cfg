SPECIFICATION Spec
CONSTANTS NRows = 6 Scores = {0, 1, 2, 3}
INVARIANTS AreaCorrect Bounded
PROPERTY Finishes
