----------------------------- MODULE SettingsMC -----------------------------
(* Command lines over a few options, parsed one after another: the settings    *)
(* depend only on the last value given to each option, never on the order or   *)
(* on the other options; no two options share a setting.                       *)
EXTENDS Settings
VARIABLES cfg, last, n
Some == {"enable-watchdog", "hll-precision-bits", "filter-push-down-low-frac", "pmem-size"}
Vals == [o \in Some |->
  CASE o = "enable-watchdog" -> {<<0, "", 0>>, <<1, "off", 0>>, <<1, "maybe", 0>>}
    [] o = "hll-precision-bits" -> {<<1, "016", 0>>, <<1, "17", 0>>, <<1, "0", 0>>}
    [] o = "filter-push-down-low-frac" -> {<<0, "", 0>>, <<1, "0.25", 2500>>}
    [] o = "pmem-size" -> {<<1, "18446744073709551615", 0>>, <<1, "18446744073709551616", 0>>, <<0, "", 0>>}]
Arg(o, x) == [o |-> o, has |-> x[1], v |-> x[2], h |-> x[3]]
Args == UNION {{Arg(o, x) : x \in Vals[o]} : o \in Some}
Lines == {<<>>} \cup {<<a>> : a \in Args} \cup {<<a, b>> : a \in Args, b \in Args}
Fields == {OptOf[o].f : o \in Some}
Init == cfg = [f \in Fields |-> "start"] /\ last = [o \in Some |-> <<>>] /\ n = 0
Next == /\ n < 3 /\ n' = n + 1
        /\ \E l \in Lines :
             IF Refused(cfg, l, 0) THEN UNCHANGED <<cfg, last>>
             ELSE /\ cfg' = After(cfg, l)
                  /\ last' = [o \in Some |-> LET S == {j \in DOMAIN l : l[j].o = o} IN
                                IF S = {} THEN last[o] ELSE LET a == l[CHOOSE j \in S : TRUE] IN
                                IF a.has = 0 /\ OptOf[o].imp = "same" THEN last[o] ELSE <<ValueOf(OptOf[o], "", a)[1]>>]
Spec == Init /\ [][Next]_<<cfg, last, n>>
OwnSetting == \A o \in Some : cfg[OptOf[o].f] = IF last[o] = <<>> THEN "start" ELSE last[o][1]
OrderFree == \A a, b \in Args : a.o # b.o => Refused(cfg, <<a, b>>, 0) = Refused(cfg, <<b, a>>, 0) /\ (Refused(cfg, <<a, b>>, 0) \/ After(cfg, <<a, b>>) = After(cfg, <<b, a>>))
Injective == Cardinality(Names) = Len(Options) /\ Cardinality({Options[k].f : k \in DOMAIN Options}) = Len(Options)
=============================================================================
