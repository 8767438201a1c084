SPECIFICATION Spec
CONSTANTS
  Users = {1, 2}
  Prices = {1, 2}
  MaxLen = 3
  MaxOps = 2
INVARIANTS ArrangedOnce SpendIsPrefix ImpsAddUp Totals Consistent
PROPERTY LogIsFixed
CHECK_DEADLOCK FALSE
