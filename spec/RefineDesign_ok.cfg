SPECIFICATION Spec
CONSTANTS E = {64, 128, 192, 320, 512, 1024}
Lims = {150, 200, 250, 400, 10000}
MaxPass = 5
K = 2
Dir = "long"
INVARIANTS Tree Counted ShapeOK AlongLong Enough
CHECK_DEADLOCK FALSE
