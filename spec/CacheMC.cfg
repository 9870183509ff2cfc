SPECIFICATION Spec
CONSTANTS MaxRows = 6 MaxCalls = 4 MaxCallRows = 3 Sizes = {1, 2, 3}
INVARIANTS RoundTrip NotOverdue BufferBound FileBound Aligned NoEarlyClose
PROPERTY AppendOnly
