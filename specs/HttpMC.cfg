SPECIFICATION Spec
CONSTANTS Clients = {c1, c2}
 Paths = {"/", "/a", "/b"}
 MaxAdds = 2
 Sticky = FALSE
INVARIANTS IndexExact StatusRight
CHECK_DEADLOCK FALSE
