CONSTANTS Cap = 6
  Sizes <- Small
SPECIFICATION Spec
INVARIANTS Bounded ClosedFull Progress Current Finished AtMost
PROPERTIES Refines Terminates
