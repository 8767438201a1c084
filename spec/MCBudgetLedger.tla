--------------------------- MODULE MCBudgetLedger ---------------------------
EXTENDS BudgetLedger
MCSplits == {<<0, 1>>, <<1, 2>>, <<1, 4>>, <<1, 1>>}
=============================================================================
