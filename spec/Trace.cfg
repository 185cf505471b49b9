SPECIFICATION Spec
CONSTANTS
  Start <- RStart
  Conf <- RConf
  Post <- RPost
  Want <- RWant
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
