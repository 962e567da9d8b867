SPECIFICATION Spec
CONSTANTS
 N = 3
 Caps = {1, 2}
 Pars = {1, 2}
 Unchecked = FALSE
 Record = FALSE
INVARIANTS Once OnlyBatches EndsRight StaysEnded RaisedFair
PROPERTIES Ends ErrorsTold AgainAnswered CloseReturns
CHECK_DEADLOCK FALSE
