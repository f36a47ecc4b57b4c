SPECIFICATION Spec
CONSTANTS
  Replicas = {1, 2, 3}
  Sizes = {1, 2}
  Sources = {"", "a"}
  Restores = {""}
INVARIANTS Valid SourceOnlyOnce NeverUnarmed
PROPERTY Grows
CHECK_DEADLOCK FALSE
