SPECIFICATION Spec
CONSTANTS Values = {0, 7}
 Letters = {65, 97, 98}
 RegNames = {"p", "q"}
 MaxRegs = 2
INVARIANTS TwoWay DefaultIsMember ChannelNamed RegUnique
PROPERTIES KeepsFirst
