SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2, c3}
  Words = {w1, w2}
  MaxAdds = 5
INVARIANTS OneId RightId
