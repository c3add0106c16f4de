--------------------------- MODULE StringDictConc ---------------------------
(* The locking protocol of one add: look up under the shared lock, then look   *)
(* up again and append under the exclusive lock.  Every interleaving gives     *)
(* each string one id, and the returned id is that of the string.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Words, MaxAdds
VARIABLES view, pc, arg, ret, adds

vars == <<view, pc, arg, ret, adds>>
Has(s) == \E k \in 1..Len(view) : view[k] = s
Pos(s) == CHOOSE k \in 1..Len(view) : view[k] = s

Init == /\ view = <<>> /\ pc = [c \in Clients |-> "idle"] /\ arg = [c \in Clients |-> 0]
        /\ ret = [c \in Clients |-> 0] /\ adds = 0
Call(c) == /\ pc[c] = "idle" /\ adds < MaxAdds
           /\ \E w \in Words : arg' = [arg EXCEPT ![c] = w]
           /\ pc' = [pc EXCEPT ![c] = "look"] /\ adds' = adds + 1 /\ UNCHANGED <<view, ret>>
Look(c) == /\ pc[c] = "look"      \* shared lock: atomic with respect to Append
           /\ IF Has(arg[c]) THEN ret' = [ret EXCEPT ![c] = Pos(arg[c])] /\ pc' = [pc EXCEPT ![c] = "done"]
              ELSE pc' = [pc EXCEPT ![c] = "add"] /\ UNCHANGED ret
           /\ UNCHANGED <<view, arg, adds>>
Add(c) == /\ pc[c] = "add"        \* exclusive lock: looks again before it appends
          /\ IF Has(arg[c]) THEN ret' = [ret EXCEPT ![c] = Pos(arg[c])] /\ UNCHANGED view
             ELSE view' = Append(view, arg[c]) /\ ret' = [ret EXCEPT ![c] = Len(view) + 1]
          /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<arg, adds>>
Return(c) == pc[c] = "done" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<view, arg, ret, adds>>
Next == \E c \in Clients : Call(c) \/ Look(c) \/ Add(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

OneId == \A j, k \in 1..Len(view) : view[j] = view[k] => j = k
RightId == \A c \in Clients : pc[c] = "done" => view[ret[c]] = arg[c]
=============================================================================
