SPECIFICATION Spec
CONSTANTS
 Threads = 3
 Par <- MPar
 Level <- MLevel
 MaxLevel = 2
 Procs = {1, 2}
 NodeBlock <- MNode
 Owners <- MOwners
 Add = "copier"
 Barrier = FALSE
 NodesRule = "owned"
INVARIANTS Complete Exclusive ReceivedOnce
CHECK_DEADLOCK TRUE
