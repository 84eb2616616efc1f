SPECIFICATION RSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
