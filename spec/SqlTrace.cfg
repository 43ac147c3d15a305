SPECIFICATION Spec
CONSTANT Mode = "fidelity"
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
