---------------------------- MODULE StringDictMC ----------------------------
(* Small exhaustive instance of StringDict.                                    *)
EXTENDS StringDict
CONSTANTS Handles, Alphabet, MaxOwn

Strs == {<<>>} \cup {<<a>> : a \in Alphabet} \cup {<<a, 98>> : a \in Alphabet}
Lists == {<<a, b>> : a, b \in Strs}

Next ==
  \/ \E d \in Handles : New(d)
  \/ \E d, b \in Handles : d # b /\ \E g \in -1..2 : Nest(d, b, g)
  \/ \E d \in DOMAIN dicts : Len(dicts[d].own) < MaxOwn /\
       \/ \E s \in Strs : GetOrAdd(d, s, IF s = <<>> THEN NULLID ELSE IF Has(View(dicts, d), s) THEN IdIn(View(dicts, d), s) ELSE Count(dicts, d))
       \/ \E ss \in Lists : Bulk(d, ss, 4, [i \in 1..2 |-> IF ss[i] = <<>> THEN NULLID ELSE
                                   IdIn(View(dicts, d) \o Appended(View(dicts, d), ss), ss[i])])
Spec == Init /\ [][Next]_dicts

(* Bulk adds are the same as adds one at a time.                               *)
BulkIsSequential == \A d \in DOMAIN dicts : \A ss \in Lists :
   LET v == View(dicts, d)
       one(v0, s) == IF s = <<>> \/ Has(v0, s) THEN v0 ELSE Append(v0, s)
   IN v \o Appended(v, ss) = one(one(v, ss[1]), ss[2])
(* Translation there and back is the identity where it is defined.             *)
RoundTrip == \A d1, d2 \in DOMAIN dicts :
   LET m == Translated(d1, d2, -1, -1) n == Translated(d2, d1, -1, -1) IN
   \A i \in 1..Len(m) : m[i] # NOID => n[m[i] + 1] = i - 1
(* The comparison operators partition the ids.                                 *)
Trichotomy == \A d \in DOMAIN dicts : \A p \in Strs :
   LET S(op) == Select(d, -1, LAMBDA s : StrCmp(op, s, p)) IN
   /\ S("<") \cup S("=") \cup S(">") = 0..(Count(dicts, d) - 1)
   /\ S("<=") = S("<") \cup S("=") /\ S(">=") = S(">") \cup S("=")
   /\ S("<") \cap S(">") = {} /\ S("<>") = S("<") \cup S(">") /\ Cardinality(S("=")) <= 1
=============================================================================
