SPECIFICATION TSpec
CONSTANTS
  Inst = {1, 2}
  Slots = {1, 2}
