SPECIFICATION Spec
CONSTANTS
 Bug = "sign"
 MaxOps = 1
 Few = TRUE
INVARIANTS FollowV FollowW StillPlane Additive PiecesCover PieceEta CoreEta Group BLaws
CHECK_DEADLOCK FALSE
