CONSTANTS MaxBlocks = 1  MaxSyms = 3  Fmts = {"deflate", "zlib", "gzip"}  Flags = {0, 2, 4, 8, 16, 30}  Damage = TRUE
SPECIFICATION Spec
INVARIANTS Read Hurt Finished Within
PROPERTIES Ends2 Forth
CHECK_DEADLOCK FALSE
