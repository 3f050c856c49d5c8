SPECIFICATION Spec
CONSTANTS
    Configs <- Cfgs
    N = 30
INVARIANTS Sound Logarithmic Linear
CHECK_DEADLOCK FALSE
