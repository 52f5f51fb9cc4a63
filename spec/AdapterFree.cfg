SPECIFICATION Fair
CONSTANTS
  Quiet = FALSE
  MaxActs = 5
  Mode = "attach"
INVARIANTS OneOfItsOwn AllAnswered TerminatedOnce QuietAfterTerminated DisconnectFirst FailuresAnswered InitializedOnce
PROPERTIES Ends
CHECK_DEADLOCK FALSE
