CONSTANTS Slots = 3  MaxOps = 5
SPECIFICATION Spec
INVARIANTS OneOwner OwnersUsable ToksKnown
CHECK_DEADLOCK FALSE
