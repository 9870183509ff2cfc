SPECIFICATION Spec
CONSTANTS Depth = 26 MaxId = 40 Sizes = {1, 2, 3, 4, 7, 50} CallSizes = {0, 1, 2, 3, 5}
INVARIANTS RoundTrip NotOverdue FileBound NoEarlyClose Aligned
