CONSTANTS Conns = {1,2,3} Workers = 2 LowFds = 5 LowThreads = 1 MaxAsk = 2 MaxOpen = 3 MaxPanic = 1 MaxShort = 1
  Retry = FALSE Rude = FALSE Giveup = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NothingUnasked Watched FullStrength OutMeansNothingHeld
PROPERTIES GivenBack Alone
