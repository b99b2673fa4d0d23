CONSTANTS Slots = 3  MaxOps = 6
SPECIFICATION Spec
INVARIANTS OneOwner OwnersUsable ToksKnown
CHECK_DEADLOCK FALSE
