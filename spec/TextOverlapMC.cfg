SPECIFICATION Spec
CONSTANTS
  Vocab = {1, 2}
  MaxC = 3
  MaxR = 3
INVARIANTS Ranges Identity OnlyIdentity Symmetric RefOrder MoreHelps LcsWorks Nothing
