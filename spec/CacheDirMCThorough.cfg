SPECIFICATION Spec
CONSTANTS Paths = {1, 2} MaxOps = 7
PROPERTIES ForeignKept RowsKept Local
