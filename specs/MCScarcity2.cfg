CONSTANTS Conns = {1,2} Workers = 1 LowFds = 5 LowThreads = 1 MaxAsk = 3 MaxOpen = 4 MaxPanic = 1 MaxShort = 2
  Retry = FALSE Rude = FALSE Giveup = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NothingUnasked Watched FullStrength OutMeansNothingHeld
PROPERTIES GivenBack Alone
