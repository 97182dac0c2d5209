SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT IntDom <- IntDom3
CONSTANT ListDom <- ListDom3
CONSTANT SetDom <- SetDom3
