INIT HInit
NEXT HNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- StartC11
  StartOk <- StartOkC11
  Steps <- StepsC11
  After <- AfterC11
  StepOk <- StepOkC11
