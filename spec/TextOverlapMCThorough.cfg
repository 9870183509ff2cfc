SPECIFICATION Spec
CONSTANTS
  Vocab = {1, 2}
  MaxC = 4
  MaxR = 4
INVARIANTS Ranges Identity OnlyIdentity Symmetric RefOrder MoreHelps LcsWorks Nothing
