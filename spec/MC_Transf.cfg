SPECIFICATION Spec
CONSTANTS
NF = 2
C0 = {2}
SC = {1, 3}
WT = {1, 2}
EVERY = 2
INVARIANTS LastOk OrderOk WeightOk TwiceOk WhiteOk DownOk KeepOk ScatOk Emit
CHECK_DEADLOCK FALSE
