SPECIFICATION Spec
INVARIANTS CopyHoldsUnparsable EachAction InSequence
CHECK_DEADLOCK FALSE
