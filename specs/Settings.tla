------------------------------ MODULE Settings ------------------------------
(* The configuration builder: a command line is a sequence of options          *)
(* [o: name, has: 1 when a value is given, v: its text, h: a real in units of  *)
(* 1/10000]; parsing it changes exactly the settings of the options given, or  *)
(* is refused.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, ConfigTable
Names == {Options[k].o : k \in DOMAIN Options}
OptOf == [n \in Names |-> Options[CHOOSE k \in DOMAIN Options : Options[k].o = n]]
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CHOOSE d \in 0..9 : ToString(d) = c]
IsDigits(s) == Len(s) > 0 /\ \A j \in 1..Len(s) : SubSeq(s, j, j) \in DOMAIN DigitOf
Digits(s) == [j \in 1..Len(s) |-> DigitOf[SubSeq(s, j, j)]]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lex(Tail(a), Tail(b))
(* s <= t, both digits without leading zeros.                                  *)
Le(s, t) == IF Len(s) # Len(t) THEN Len(s) < Len(t) ELSE Lex(Digits(s), Digits(t))
TrueTexts == {"1", "true", "True", "TRUE", "on", "ON", "yes", "Yes"}
FalseTexts == {"0", "false", "False", "FALSE", "off", "OFF", "no", "No"}
Nat1(v, max) == IF IsDigits(v) /\ Le(Strip(v), max) THEN <<Strip(v)>> ELSE <<>>
Neg(v) == Len(v) > 1 /\ SubSeq(v, 1, 1) = "-"
Int1(v, max, min) ==
  IF Neg(v) THEN (LET m == Nat1(SubSeq(v, 2, Len(v)), min) IN
                  IF m = <<>> THEN <<>> ELSE IF m[1] = "0" THEN m ELSE <<"-" \o m[1]>>)
  ELSE Nat1(v, max)
(* h / 10000 as %g writes it.                                                  *)
RECURSIVE Trim(_)
Trim(s) == IF SubSeq(s, Len(s), Len(s)) = "0" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Pad4(n) == SubSeq("0000", 1, 4 - Len(ToString(n))) \o ToString(n)
RealText(h) == LET a == IF h < 0 THEN -h ELSE h IN
  (IF h < 0 THEN "-" ELSE "") \o ToString(a \div 10000) \o (IF a % 10000 = 0 THEN "" ELSE "." \o Trim(Pad4(a % 10000)))
InRange(o, v, h) ==
  CASE o = "hll-precision-bits" -> v # "0" /\ Le(v, "16")
    [] o = "gpu-input-mem-limit" -> 100 <= h /\ h <= 9900
    [] OTHER -> TRUE
(* The value an option gives to its setting: <<text>>, or <<>> when refused.   *)
ValueOf(x, cur, a) ==
  IF a.has = 0 THEN (IF x.imp = "" THEN <<>> ELSE IF x.imp = "same" THEN <<cur>> ELSE <<x.imp>>)
  ELSE CASE x.k = "bool" -> IF a.v \in TrueTexts THEN <<"1">> ELSE IF a.v \in FalseTexts THEN <<"0">> ELSE <<>>
         [] x.k = "nat" -> Nat1(a.v, "18446744073709551615")
         [] x.k = "nat4" -> Nat1(a.v, "4294967295")
         [] x.k = "int" -> Int1(a.v, "9223372036854775807", "9223372036854775808")
         [] x.k = "int2" -> Int1(a.v, "32767", "32768")
         [] x.k = "real" -> IF a.h = 2000000000 THEN <<>> ELSE <<RealText(a.h)>>
         [] x.k = "str" -> <<a.v>>
Plain == {"help", "gtest_list_tests"}
Malformed(cfg, args, gtest) ==
  \/ \E j \in DOMAIN args : \/ args[j].o \notin Names \cup Plain
                            \/ args[j].o = "gtest_list_tests" /\ gtest = 0
                            \/ args[j].o \in Names /\ ValueOf(OptOf[args[j].o], cfg[OptOf[args[j].o].f], args[j]) = <<>>
  \/ \E j, k \in DOMAIN args : j # k /\ args[j].o = args[k].o
OutOfRange(cfg, args) ==
  \E j \in DOMAIN args : args[j].o \in Names /\ args[j].has = 1 /\ ~InRange(args[j].o, ValueOf(OptOf[args[j].o], "", args[j])[1], args[j].h)
Refused(cfg, args, gtest) == Malformed(cfg, args, gtest) \/ OutOfRange(cfg, args)
RECURSIVE Apply(_, _, _)
Apply(cfg, cur, args) ==
  IF args = <<>> THEN cur
  ELSE LET a == Head(args) IN
       Apply(cfg, IF a.o \in Names THEN [cur EXCEPT ![OptOf[a.o].f] = ValueOf(OptOf[a.o], cfg[OptOf[a.o].f], a)[1]] ELSE cur, Tail(args))
After(cfg, args) == Apply(cfg, cfg, args)
Help(args) == \E j \in DOMAIN args : args[j].o = "help"
=============================================================================
