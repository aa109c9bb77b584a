SPECIFICATION Spec
CONSTANTS RATE = 486
 CAP = 243
 MODE = "sim"
 DEPTH = 14
INVARIANTS WF Emit
CHECK_DEADLOCK FALSE
