SPECIFICATION Spec
CONSTANTS MaxRows = 7 MaxCalls = 6 MaxCallRows = 3 Sizes = {1, 2, 4}
INVARIANTS RoundTrip NotOverdue BufferBound FileBound Aligned NoEarlyClose
PROPERTY AppendOnly
