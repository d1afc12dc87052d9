CONSTANTS MaxBlocks = 1  MaxSyms = 2  Fmts = {"deflate", "zlib", "gzip"}  Flags = {0, 30}  Damage = TRUE
SPECIFICATION Spec
INVARIANTS Read Hurt Finished Within
PROPERTIES Ends2 Forth
CHECK_DEADLOCK FALSE
