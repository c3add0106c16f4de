SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  Alphabet = {65, 98}
  MaxOwn = 3
INVARIANTS Bijective BulkIsSequential RoundTrip Trichotomy
PROPERTIES Stable Isolated
