-------------------------------- MODULE Types --------------------------------
(* The types of values: which exist, how they are named, how wide a value is,  *)
(* and their canonical and nullable forms.  A type is a record with a kind k   *)
(* and its parameters: s bytes, u time unit, p precision, sc scale, len, os    *)
(* offset bytes, id of the dictionary, e element, n = 1 when NULL is a value.  *)
EXTENDS Integers, Sequences, TLC

Strings == {"varchar", "text"}
Elems == {"bool", "int", "fp", "dec", "date", "time", "ts", "interval", "dict", "null"}

RECURSIVE TypeOk(_)
TypeOk(t) ==
  CASE t.k = "int" -> t.s \in {1, 2, 4, 8}
    [] t.k = "fp" -> t.s \in {4, 8}
    [] t.k = "dec" -> t.s = 8 /\ t.p >= 0 /\ t.sc >= 0
    [] t.k = "varchar" -> t.len >= 0
    [] t.k = "date" -> t.s \in {2, 4, 8} /\ t.u # "m" /\ (t.s = 2 => t.u = "d") /\ (t.s = 4 => t.u \in {"d", "s"})
    [] t.k = "time" -> t.s \in {2, 4, 8} /\ t.u \notin {"m", "d"} /\ (t.s = 2 => t.u = "s") /\ (t.s = 4 => t.u \in {"s", "ms"})
    [] t.k = "ts" -> t.u \notin {"m", "d"}
    [] t.k = "arrf" -> TypeOk(t.e) /\ t.len >= 0 /\ t.e.k \in Elems
    [] t.k = "arrv" -> TypeOk(t.e) /\ t.os = 4 /\ t.e.k \in Elems
    [] t.k = "dict" -> TypeOk(t.e) /\ t.s \in {1, 2, 4} /\ t.e.k \in Strings
    [] t.k = "col" -> TypeOk(t.e)
    [] t.k = "collist" -> TypeOk(t.e) /\ t.len >= 1
    [] OTHER -> TRUE

RECURSIVE Size(_)
Size(t) ==
  CASE t.k = "null" -> 0
    [] t.k = "bool" -> 1
    [] t.k \in {"int", "fp", "dec", "date", "time", "interval", "dict"} -> t.s
    [] t.k = "ts" -> 8
    [] t.k \in Strings \cup {"arrv"} -> -1
    [] t.k = "arrf" -> t.len * Size(t.e)
    [] t.k \in {"col", "collist"} -> Size(t.e)

(* The form values have while a query runs.                                    *)
Canon(t) ==
  CASE t.k = "date" -> [t EXCEPT !.s = 8, !.u = "s"]
    [] t.k \in {"time", "interval"} -> [t EXCEPT !.s = 8]
    [] t.k = "dict" -> [t EXCEPT !.s = 4]
    [] OTHER -> t

WithNull(t, n) ==
  CASE t.k = "null" -> t
    [] t.k = "dict" -> [t EXCEPT !.n = n, !.e.n = n]
    [] OTHER -> [t EXCEPT !.n = n]
Nullable(t) == IF t.k = "null" THEN 1 ELSE t.n

B01(x) == IF x THEN 1 ELSE 0
Facts(t) ==
  LET k == t.k IN
  [size |-> Size(t), csize |-> Size(Canon(t)), nullable |-> Nullable(t),
   is |-> [i \in 1..16 |-> B01(k = <<"null", "bool", "int", "fp", "dec", "varchar", "text", "date", "time", "ts", "interval", "arrf", "arrv", "dict", "col", "collist">>[i])]
          \o <<B01(k = "int" /\ Size(t) = 1), B01(k = "int" /\ Size(t) = 2), B01(k = "int" /\ Size(t) = 4), B01(k = "int" /\ Size(t) = 8),
               B01(k = "fp" /\ Size(t) = 4), B01(k = "fp" /\ Size(t) = 8),
               B01(k \in {"int", "fp", "dec"}), B01(k \in Strings), B01(k \in {"date", "time", "ts"}), B01(k \in {"arrf", "arrv"}),
               B01(k \in Strings \cup {"arrv"}), B01(k \in {"arrf", "arrv", "col", "collist", "text"})>>]

NN(t) == IF t.n = 1 THEN "" ELSE "[NN]"
RECURSIVE Name(_)
Name(t) ==
  CASE t.k = "null" -> "NULLT"
    [] t.k = "bool" -> "BOOL" \o NN(t)
    [] t.k = "int" -> "INT" \o ToString(8 * t.s) \o NN(t)
    [] t.k = "fp" -> "FP" \o ToString(8 * t.s) \o NN(t)
    [] t.k = "dec" -> "DEC" \o ToString(8 * t.s) \o "(" \o ToString(t.p) \o "," \o ToString(t.sc) \o ")" \o NN(t)
    [] t.k = "varchar" -> "VARCHAR(" \o ToString(t.len) \o ")" \o NN(t)
    [] t.k = "text" -> "TEXT" \o NN(t)
    [] t.k = "date" -> "DATE" \o ToString(8 * t.s) \o "[" \o t.u \o "]" \o NN(t)
    [] t.k = "time" -> "TIME" \o ToString(8 * t.s) \o "[" \o t.u \o "]" \o NN(t)
    [] t.k = "ts" -> "TIMESTAMP[" \o t.u \o "]" \o NN(t)
    [] t.k = "interval" -> "INTERVAL" \o ToString(8 * t.s) \o "[" \o t.u \o "]" \o NN(t)
    [] t.k = "arrf" -> "ARRAY(" \o Name(t.e) \o ")(" \o ToString(t.len) \o ")" \o NN(t)
    [] t.k = "arrv" -> "ARRAY" \o ToString(8 * t.os) \o "(" \o Name(t.e) \o ")" \o NN(t)
    [] t.k = "dict" -> "DICT" \o ToString(8 * t.s) \o "(" \o Name(t.e) \o ")[" \o ToString(t.id) \o "]" \o NN(t)
    [] t.k = "col" -> "COLUMN(" \o Name(t.e) \o ")"
    [] t.k = "collist" -> "COLUMN_LIST" \o ToString(t.len) \o "(" \o Name(t.e) \o ")"

(* What may be left out of a written type: its default size and unit, the      *)
(* element and number of a dictionary.  o.size, o.unit, o.elem, o.id say       *)
(* whether they are written; only lower case is considered here.               *)
DefSize(t) == CASE t.k = "dict" -> 4 [] t.k = "dec" -> 8 [] OTHER -> 8
DefUnit(t) ==
  CASE t.k = "date" -> IF t.s = 2 THEN "d" ELSE "s"
    [] t.k = "time" -> (CASE t.s = 2 -> "s" [] t.s = 4 -> "ms" [] OTHER -> "us")
    [] OTHER -> "us"
nn(t) == IF t.n = 1 THEN "" ELSE "[nn]"
RECURSIVE Spell(_, _)
Spell(t, o) ==
  LET sz == IF o.size = 1 THEN ToString(8 * (IF t.k = "ts" THEN 8 ELSE t.s)) ELSE ""
      un == IF o.unit = 1 THEN "[" \o t.u \o "]" ELSE "" IN
  CASE t.k = "null" -> "nullt"
    [] t.k = "bool" -> "bool" \o nn(t)
    [] t.k = "int" -> "int" \o sz \o nn(t)
    [] t.k = "fp" -> "fp" \o sz \o nn(t)
    [] t.k = "dec" -> o.word \o sz \o "(" \o o.sp \o ToString(t.p) \o o.sp \o "," \o o.sp \o ToString(t.sc) \o o.sp \o ")" \o nn(t)
    [] t.k = "varchar" -> "varchar(" \o ToString(t.len) \o ")" \o nn(t)
    [] t.k = "text" -> "text" \o nn(t)
    [] t.k \in {"date", "time", "interval"} -> t.k \o sz \o un \o nn(t)
    [] t.k = "ts" -> "timestamp" \o sz \o un \o nn(t)
    [] t.k = "arrf" -> "array(" \o Spell(t.e, o.e) \o ")(" \o ToString(t.len) \o ")" \o nn(t)
    [] t.k = "arrv" -> "array(" \o Spell(t.e, o.e) \o ")" \o nn(t)
    [] t.k = "dict" -> "dict" \o sz \o (IF o.elem = 1 THEN "(" \o Spell(t.e, o.e) \o ")" ELSE "") \o (IF o.id = 1 THEN "[" \o ToString(t.id) \o "]" ELSE "")
Written(t, o) ==
  /\ t.k \in {"int", "fp", "dec", "dict", "date", "time", "interval"} => (o.size = 1 \/ t.s = DefSize(t))
  /\ t.k \in {"date", "time", "interval", "ts"} => (o.unit = 1 \/ t.u = DefUnit(t))
  /\ t.k = "dict" => (o.id = 1 \/ t.id = 0) /\ (o.elem = 1 \/ t.e = [k |-> "text", n |-> 1])
=============================================================================
