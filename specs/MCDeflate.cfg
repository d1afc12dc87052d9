CONSTANTS MaxBlocks = 2  MaxSyms = 1  Fmts = {"deflate", "zlib", "gzip"}  Flags = {0, 30}  Damage = FALSE
SPECIFICATION Spec
INVARIANTS Read Hurt Finished Within
PROPERTIES Ends2 Forth
CHECK_DEADLOCK FALSE
