SPECIFICATION Spec
INVARIANT Report2
VIEW View
CHECK_DEADLOCK FALSE
