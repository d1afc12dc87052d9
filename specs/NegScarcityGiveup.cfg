CONSTANTS Conns = {1,2} Workers = 2 LowFds = 4 LowThreads = 1 MaxAsk = 2 MaxOpen = 3 MaxPanic = 1 MaxShort = 2
  Retry = FALSE Rude = FALSE Giveup = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NothingUnasked Watched FullStrength OutMeansNothingHeld
PROPERTIES GivenBack Alone
