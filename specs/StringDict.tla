----------------------------- MODULE StringDict -----------------------------
(* String dictionaries: a family of dictionaries, each either stand-alone or   *)
(* nested over a base dictionary at a generation (a prefix of the base).       *)
(* Ids are 0-based positions in the dictionary's view.                         *)
EXTENDS Strings, TLC, SequencesExt

VARIABLE dicts      \* [handle -> [base |-> handle or 0, gen |-> Nat, own |-> Seq(String)]]

None == 0
NULLID == -2        \* how the traces write the null id
NOID   == -1

RECURSIVE View(_, _)
View(ds, d) == IF ds[d].base = None THEN ds[d].own
               ELSE SubSeq(View(ds, ds[d].base), 1, ds[d].gen) \o ds[d].own
Count(ds, d) == ds[d].gen + Len(ds[d].own)
RECURSIVE Bases(_, _)
Bases(ds, d) == IF ds[d].base = None THEN {} ELSE {ds[d].base} \cup Bases(ds, ds[d].base)

Has(v, s)  == \E i \in 1..Len(v) : v[i] = s
IdIn(v, s) == IF s = <<>> THEN NOID
              ELSE IF Has(v, s) THEN (CHOOSE i \in 1..Len(v) : v[i] = s) - 1 ELSE NOID

(* The view capped at a generation (negative: no cap).                         *)
Capped(v, g) == IF g < 0 \/ g >= Len(v) THEN v ELSE SubSeq(v, 1, g)

Init == dicts = <<>>

New(d) ==
  /\ d \notin DOMAIN dicts
  /\ dicts' = dicts @@ (d :> [base |-> None, gen |-> 0, own |-> <<>>])

Nest(d, b, g) ==
  /\ d \notin DOMAIN dicts /\ b \in DOMAIN dicts
  /\ g <= Count(dicts, b)
  /\ dicts' = dicts @@ (d :> [base |-> b, gen |-> IF g < 0 THEN Count(dicts, b) ELSE g, own |-> <<>>])

Extend(d, new) == dicts' = [dicts EXCEPT ![d].own = @ \o new]

(* Adding one string.  Empty strings are null and are never stored.            *)
GetOrAdd(d, s, id) ==
  LET v == View(dicts, d) IN
  IF s = <<>> THEN id = NULLID /\ UNCHANGED dicts
  ELSE IF Has(v, s) THEN id = IdIn(v, s) /\ UNCHANGED dicts
  ELSE id = Len(v) /\ Extend(d, <<s>>)

(* What adding the strings one at a time, in order, would append.              *)
Appended(v, ss) ==
  FoldLeft(LAMBDA acc, s : IF s = <<>> \/ Has(v, s) \/ Has(acc, s) THEN acc ELSE Append(acc, s), <<>>, ss)

MaxId(w)  == CASE w = 1 -> 254 [] w = 2 -> 65534 [] OTHER -> 2147483646
NullOf(w) == CASE w = 1 -> 255 [] w = 2 -> 65535 [] OTHER -> NULLID
NoOf(w)   == CASE w = 1 -> 255 [] w = 2 -> 65535 [] OTHER -> NOID

BulkFits(d, ss, w) ==
  LET v == View(dicts, d) new == Appended(v, ss) full == v \o new IN
    \A i \in 1..Len(ss) : IdIn(full, ss[i]) <= MaxId(w)

Bulk(d, ss, w, ids) ==
  LET v == View(dicts, d) new == Appended(v, ss) full == v \o new IN
  /\ Len(ids) = Len(ss)
  /\ \A i \in 1..Len(ss) :
       IF ss[i] = <<>> THEN ids[i] = NullOf(w)
       ELSE ids[i] = IdIn(full, ss[i]) /\ ids[i] <= MaxId(w)
  /\ Extend(d, new)

(* A bulk add whose ids do not fit the width is refused; the strings it may    *)
(* have added before it gave up are a prefix of those it had to add.           *)
BulkRefused(d, ss, w) ==
  /\ ~BulkFits(d, ss, w)
  /\ LET new == Appended(View(dicts, d), ss) IN
     \E k \in 0..Len(new) : Extend(d, SubSeq(new, 1, k))

GetBulk(d, ss, g, w, ids, nf) ==
  LET v == Capped(View(dicts, d), g) IN
  /\ Len(ids) = Len(ss)
  /\ \A i \in 1..Len(ss) :
       IF ss[i] = <<>> THEN ids[i] = NullOf(w)
       ELSE LET x == IdIn(v, ss[i]) IN ids[i] = IF x = NOID THEN NoOf(w) ELSE x
  /\ nf = Cardinality({i \in 1..Len(ss) : ss[i] # <<>> /\ ~Has(v, ss[i])})
  /\ UNCHANGED dicts

(* Generated strings prefix0, prefix1, ... none of which is present yet.       *)
GenStr(pre, i) == pre \o Digits(i)
GenSeq(pre, lo, hi) == [k \in 1..(hi - lo) |-> GenStr(pre, lo + k - 1)]
BulkGen(d, pre, lo, hi, runs) ==
  /\ runs = IF hi > lo THEN <<<<Count(dicts, d), hi - lo>>>> ELSE <<>>
  /\ Extend(d, GenSeq(pre, lo, hi))

IdSet(seq) == {seq[i] : i \in 1..Len(seq)}
Exactly(seq, S) == IdSet(seq) = S /\ Cardinality(S) = Len(seq)

Select(d, g, P(_)) == LET v == Capped(View(dicts, d), g) IN {i - 1 : i \in {k \in 1..Len(v) : P(v[k])}}

Translated(src, dst, sg, dg) ==
  LET sv == Capped(View(dicts, src), sg) dv == Capped(View(dicts, dst), dg) IN
  [i \in 1..Len(sv) |-> IdIn(dv, sv[i])]

Equal(d1, d2) == dicts[d1].base = dicts[d2].base /\ dicts[d1].gen = dicts[d2].gen /\ dicts[d1].own = dicts[d2].own

----------------------------------------------------------------------------
(* Properties of the specification itself.                                     *)
Bijective == \A d \in DOMAIN dicts : LET v == View(dicts, d) IN
                /\ \A i, j \in 1..Len(v) : v[i] = v[j] => i = j
                /\ \A i \in 1..Len(v) : v[i] # <<>>
(* Ids never change: a view only ever grows at its end.                        *)
Stable == [][\A d \in DOMAIN dicts : IsPrefix(View(dicts, d), View(dicts', d))]_dicts
(* A nested dictionary does not see what its base gained later.                *)
Isolated == [][\A d \in DOMAIN dicts : dicts[d].own = dicts'[d].own => View(dicts, d) = View(dicts', d)]_dicts
=============================================================================
