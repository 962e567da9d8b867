SPECIFICATION Spec
CONSTANTS
  Chars = {"a", ",", "!"}
  Delim = ","
  Esc = "!"
  MaxLen = 3
  MaxStrings = 2
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
