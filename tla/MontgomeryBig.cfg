SPECIFICATION Spec
CONSTANTS W = 4
 N = 3
INVARIANTS Below2p NoCarryNeeded Correct
