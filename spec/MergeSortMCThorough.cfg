SPECIFICATION Spec
CONSTANTS NRows = 5 NFiles = 3 Numbers = 2 Batches = {1, 2, 3}
INVARIANTS MergeCorrect MergeSafe
PROPERTY Terminates
