CONSTANTS Cap = 1000
  Sizes <- Large
SPECIFICATION Spec
INVARIANTS Bounded ClosedFull Current Finished AtMost
PROPERTIES Refines
