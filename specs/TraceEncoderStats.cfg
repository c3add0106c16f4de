SPECIFICATION TraceSpec
POSTCONDITION Accepted
