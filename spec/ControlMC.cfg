SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxResumes = 3
  Kinds = {"continue", "next", "stepIn", "stepOut"}
INVARIANTS OneStop StackIsChain StopsConform StackOfStopped PlainRun OutIgnoresBreakpoints
PROPERTIES Finishes StepsStop
