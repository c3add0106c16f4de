SPECIFICATION ConcSpec
POSTCONDITION ConcAccepted
