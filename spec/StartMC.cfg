SPECIFICATION Spec
CONSTANTS
  FromJson = FALSE
INVARIANTS
  ArgsAsGiven
  EnvAsAsked
  KeptAfterOwn
  NothingLeft
  ScriptGone
  Resolved
  Emit
PROPERTIES
  Starts
CHECK_DEADLOCK FALSE
