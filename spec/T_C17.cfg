INIT HInit
NEXT HNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- StartC17
  StartOk <- StartOkC17
  Steps <- StepsC17
  After <- AfterC17
  StepOk <- StepOkC17
