SPECIFICATION Spec
INVARIANTS Grid FlatAgrees Telescopes KeysOnce
PROPERTIES AppendOnly
