SPECIFICATION Spec
INVARIANT Report
VIEW View
CHECK_DEADLOCK FALSE
