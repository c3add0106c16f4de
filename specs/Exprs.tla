-------------------------------- MODULE Exprs --------------------------------
(* Expressions as terms.  A term is a record with its form x, its parameters   *)
(* and its parts; an absent part is the term Absent.                           *)
EXTENDS Integers, Sequences
Absent == [x |-> "none"]
One == {"a", "b", "c1", "d", "esc", "a1", "els"}       \* single parts
Many == {"args", "pk", "ok"}                            \* lists of parts
(* What two terms must agree in to be the same computation: everything that    *)
(* is written in them.                                                         *)
Same(a, b) == a = b

(* e with each column <<tab, c>> in the domain of m replaced by m's term.      *)
RECURSIVE Subst(_, _)
Subst(e, m) ==
  IF e = Absent THEN e
  ELSE IF e.x = "col" THEN (IF \E i \in 1..Len(m) : m[i].tab = e.tab /\ m[i].c = e.c
                            THEN m[CHOOSE i \in 1..Len(m) : m[i].tab = e.tab /\ m[i].c = e.c].to ELSE e)
  ELSE [f \in DOMAIN e |->
          CASE f \in One -> Subst(e[f], m)
            [] f \in Many -> [i \in 1..Len(e[f]) |-> Subst(e[f][i], m)]
            [] f = "ws" -> [i \in 1..Len(e[f]) |-> [c |-> Subst(e[f][i].c, m), v |-> Subst(e[f][i].v, m)]]
            [] OTHER -> e[f]]

RECURSIVE Columns(_)
Columns(e) ==
  IF e = Absent THEN {}
  ELSE IF e.x = "col" THEN {<<e.tab, e.c>>}
  ELSE UNION {CASE f \in One -> Columns(e[f])
                [] f \in Many -> UNION {Columns(e[f][i]) : i \in 1..Len(e[f])}
                [] f = "ws" -> UNION {Columns(e[f][i].c) \cup Columns(e[f][i].v) : i \in 1..Len(e[f])}
                [] OTHER -> {} : f \in DOMAIN e}
=============================================================================
