CONSTANTS
  Ord <- HOrd
  TokSize <- HToks
  Dial <- HDial
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
