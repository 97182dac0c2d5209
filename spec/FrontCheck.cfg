SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
CONSTANT NumPicks = 8
CONSTANT IntDom <- IntDom3
CONSTANT ListDom <- ListDom3
CONSTANT SetDom <- SetDom3
