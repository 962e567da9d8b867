SPECIFICATION Spec
CONSTANTS
  FileSet <- SmallFiles
  MaxFiles = 2
  Lengths = {1, 2, 3}
  Threads = {1, 2, 3}
  Batches = {1, 2}
  Epochs = {1, 2}
  QueueSize = 1
  Fails = {0, 2, 5}
INVARIANTS ErrorInv PrefixInv DoneInv BatchInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
