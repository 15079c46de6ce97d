SPECIFICATION Spec
CONSTANT Shared = FALSE
INVARIANTS Repeatable SeedsDiffer Good
CHECK_DEADLOCK FALSE
