SPECIFICATION MSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Ciphers = {"toy2"}
  Modes = {"ecb", "cbc", "cfb", "ofb", "ctr"}
  Dirs = {TRUE, FALSE}
  Sizes = {0, 1, 2, 3, 5}
  FinSizes = {0, 1, 2, 3}
  Ids = {"a"}
  MaxCalls = 4
  Emit = FALSE
  Multi = FALSE
