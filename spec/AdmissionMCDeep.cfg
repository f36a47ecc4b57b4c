SPECIFICATION Spec
CONSTANTS
  Replicas = {0, 1, 2, 3, 5}
  Sizes = {0, 1, 2}
  Sources = {"", "a", "b"}
  Restores = {"", "r"}
INVARIANTS Valid SourceOnlyOnce NeverUnarmed
PROPERTY Grows
CHECK_DEADLOCK FALSE
