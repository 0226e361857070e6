SPECIFICATION Spec
INVARIANTS SameProcess RoundTrip Additive
