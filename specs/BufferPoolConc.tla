--------------------------- MODULE BufferPoolConc ---------------------------
(* How concurrent users of a pool get chunks: one of them fetches, the others *)
(* wait for it; a failed fetch leaves nothing behind and wakes the others;    *)
(* unpinned chunks go when room is needed.                                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Users, Chunks, Cap, Faults
VARIABLES index,   \* chunk -> state: 0 absent, 1 being filled, 2 complete
          pins,    \* chunk -> number of users
          busy,    \* chunks with a fetch in progress
          pc, want, faults
vars == <<index, pins, busy, pc, want, faults>>

Init == /\ index = [c \in Chunks |-> 0] /\ pins = [c \in Chunks |-> 0] /\ busy = {}
        /\ pc = [u \in Users |-> "idle"] /\ want = [u \in Users |-> CHOOSE c \in Chunks : TRUE] /\ faults = Faults

Ask(u)  == /\ pc[u] = "idle" /\ \E c \in Chunks : want' = [want EXCEPT ![u] = c]
           /\ pc' = [pc EXCEPT ![u] = "look"] /\ UNCHANGED <<index, pins, busy, faults>>
Look(u) == LET c == want[u] IN
  /\ pc[u] = "look"
  /\ IF c \in busy THEN pc' = [pc EXCEPT ![u] = "wait"] /\ UNCHANGED <<index, pins, busy>>
     ELSE IF index[c] # 0 THEN /\ pins' = [pins EXCEPT ![c] = @ + 1] /\ pc' = [pc EXCEPT ![u] = "have"] /\ UNCHANGED <<index, busy>>
     ELSE busy' = busy \cup {c} /\ pc' = [pc EXCEPT ![u] = "make"] /\ UNCHANGED <<index, pins>>
  /\ UNCHANGED <<want, faults>>
Wake(u) == pc[u] = "wait" /\ want[u] \notin busy /\ pc' = [pc EXCEPT ![u] = "look"] /\ UNCHANGED <<index, pins, busy, want, faults>>
Room == Cardinality({c \in Chunks : index[c] # 0}) < Cap
Done(u, c, to) == busy' = busy \ {c} /\ pc' = [pc EXCEPT ![u] = to]
Make(u) == LET c == want[u] IN
  /\ pc[u] = "make" /\ UNCHANGED <<want, faults>>
  /\ IF Room THEN index' = [index EXCEPT ![c] = 1] /\ pins' = [pins EXCEPT ![c] = 1] /\ pc' = [pc EXCEPT ![u] = "fetch"] /\ UNCHANGED busy
     ELSE IF \E v \in Chunks : index[v] # 0 /\ pins[v] = 0
     THEN \E v \in Chunks : /\ index[v] # 0 /\ pins[v] = 0
                            /\ index' = [index EXCEPT ![v] = 0, ![c] = 1] /\ pins' = [pins EXCEPT ![c] = 1]
                            /\ pc' = [pc EXCEPT ![u] = "fetch"] /\ UNCHANGED busy
     ELSE Done(u, c, "idle") /\ UNCHANGED <<index, pins>>          \* refused
Fetch(u) == LET c == want[u] IN
  /\ pc[u] = "fetch" /\ UNCHANGED want
  /\ \/ index' = [index EXCEPT ![c] = 2] /\ Done(u, c, "have") /\ UNCHANGED <<pins, faults>>
     \/ /\ faults > 0 /\ faults' = faults - 1                       \* the storage fails
        /\ index' = [index EXCEPT ![c] = 0] /\ pins' = [pins EXCEPT ![c] = 0] /\ Done(u, c, "idle")
Release(u) == pc[u] = "have" /\ pins' = [pins EXCEPT ![want[u]] = @ - 1] /\ pc' = [pc EXCEPT ![u] = "idle"] /\ UNCHANGED <<index, busy, want, faults>>

Step(u) == Look(u) \/ Wake(u) \/ Make(u) \/ Fetch(u) \/ Release(u)
Next == \E u \in Users : Ask(u) \/ Step(u)
Spec == Init /\ [][Next]_vars /\ \A u \in Users : SF_vars(Step(u))

OneFetch == \A u, v \in Users : u # v /\ pc[u] \in {"make", "fetch"} /\ pc[v] \in {"make", "fetch"} => want[u] # want[v]
Complete == \A u \in Users : pc[u] = "have" => index[want[u]] = 2 /\ pins[want[u]] > 0
PinsRight == \A c \in Chunks : pins[c] = Cardinality({u \in Users : want[u] = c /\ pc[u] \in {"have", "fetch"}})
BusyRight == \A c \in busy : \E u \in Users : want[u] = c /\ pc[u] \in {"make", "fetch"}
Fits == Cardinality({c \in Chunks : index[c] # 0}) <= Cap
NoHang == \A u \in Users : pc[u] = "wait" ~> pc[u] # "wait"
=============================================================================
