SPECIFICATION Spec
CONSTANTS
  Endings = {"disc", "discT", "term", "termdisc", "eof", "killda", "cut", "int", "killpb", "probe"}
INVARIANTS TypeOK NothingAfterTerminate TerminateFails OtherwiseComplete Emit
PROPERTIES NoStopAfterwards Ends
CHECK_DEADLOCK FALSE
