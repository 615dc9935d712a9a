SPECIFICATION Spec
CONSTANTS
 Bug = "eta"
 MaxOps = 1
 Few = TRUE
INVARIANTS FollowV FollowW StillPlane Additive PiecesCover PieceEta CoreEta Group BLaws
CHECK_DEADLOCK FALSE
