SPECIFICATION Spec
CONSTANTS
 Bug = "orient"
 MaxOps = 1
 Few = TRUE
INVARIANTS FollowV FollowW StillPlane Additive PiecesCover PieceEta CoreEta Group BLaws
CHECK_DEADLOCK FALSE
