SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Variants = {1, 2, 3, 4}
 MaxFits = 3
INVARIANTS Latest Reproducible ReadsLatest
CHECK_DEADLOCK FALSE
