SPECIFICATION Spec
CONSTANTS NRows = 4 NFiles = 3 Numbers = 2 Batches = {1, 2, 3}
INVARIANTS MergeCorrect MergeSafe
PROPERTY Terminates
