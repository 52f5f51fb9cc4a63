SPECIFICATION Spec
CONSTANTS
  Quiet = TRUE
  MaxActs = 5
  Mode = "attach"
INVARIANTS OneOfItsOwn AllAnswered TerminatedOnce QuietAfterTerminated DisconnectFirst FailuresAnswered InitializedOnce Emit
CHECK_DEADLOCK FALSE
