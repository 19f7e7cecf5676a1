SPECIFICATION Spec
CONSTANTS W = 4
 N = 2
INVARIANTS Below2p NoCarryNeeded Correct
