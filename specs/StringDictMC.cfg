SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  Alphabet = {65, 98}
  MaxOwn = 2
INVARIANTS Bijective BulkIsSequential RoundTrip Trichotomy
PROPERTIES Stable Isolated
