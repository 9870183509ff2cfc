SPECIFICATION Spec
CONSTANT Size = 3
INVARIANT Laws
