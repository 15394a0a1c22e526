SPECIFICATION Spec
INVARIANTS Back Order Between Nearest SameRounding
CHECK_DEADLOCK FALSE
