SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Variants = {1, 2, 3, 4}
 MaxFits = 2
INVARIANTS Latest Reproducible ReadsLatest
CHECK_DEADLOCK FALSE
