SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 97, 127, 128, 129, 130, 144, 145, 146, 160, 161, 176, 177, 179, 78, 192, 193, 195, 196, 200, 201, 208, 212, 216, 220, 239, 240, 255}
  MaxLen = 3
  Sizes = {0, 1, 2, 15, 16, 17, 127, 128, 255, 256, 257, 65535, 65536, 65537}
INVARIANTS RoundTrip PrefixFree Total
CHECK_DEADLOCK FALSE
