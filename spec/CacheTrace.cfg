SPECIFICATION Spec
INVARIANTS RoundTrip
