SPECIFICATION Spec
CONSTANTS
 Bug = "ok"
 MaxOps = 2
 Few = FALSE
INVARIANTS FollowV FollowW StillPlane Additive PiecesCover PieceEta CoreEta Group BLaws
CHECK_DEADLOCK FALSE
