------------------------------- MODULE LogMC -------------------------------
(* Every history of settings up to Steps changes, each followed by messages of all levels. *)
EXTENDS Log
CONSTANTS Steps, Levels
VARIABLES s, hist, shown, ended
Ops == {[k |-> "level", v |-> v] : v \in Levels} \cup {[k |-> "flag", f |-> f, v |-> v] : f \in {"ts", "col", "ex"}, v \in 0..1}
       \cup {[k |-> "restore"], [k |-> "init"], [k |-> "age", v |-> 3725]}
Msg(lvl) == [l |-> lvl, m |-> 0, a |-> <<"text">>]
Burst == <<Msg(4), Msg(2), Msg(3), Msg(1), Msg(2)>>
Init == s = Start /\ hist = <<>> /\ shown = <<>> /\ ended = FALSE
Next == \/ Len(hist) < Steps /\ shown = <<>> /\ \E o \in Ops : s' = Step(s, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<shown, ended>>
        \/ ~ended /\ shown = <<>> /\ \E n \in 1..4 :
              LET ms == IF n = 4 THEN Burst ELSE SubSeq(Burst, n, n + 2) r == Say(s, ms, 4) IN
              hist' = Append(hist, [k |-> "say", ms |-> ms]) /\ shown' = <<r>> /\ ended' = r.exit /\ s' = s
Spec == Init /\ [][Next]_<<s, hist, shown, ended>>
ShownLaws == shown # <<>> => LET r == shown[1] ms == hist[Len(hist)].ms IN
    /\ \A i \in 1..Len(r.o) : r.o[i].l > 1 /\ r.o[i].l <= s.lvl
    /\ \A i \in 1..Len(r.e) : r.e[i].l = 1
    /\ ended => Len(r.e) = 1 /\ s.ex /\ s.lvl >= 1
    /\ s.lvl = 0 => r.o = <<>> /\ r.e = <<>> /\ ~ended
    /\ ~ended => Len(r.o) + Len(r.e) = Cardinality({i \in 1..Len(ms) : ms[i].l <= s.lvl})
SettingLaws == Len(hist) > 0 => LET o == hist[Len(hist)] IN
    /\ o.k = "restore" => s = Defaults
    /\ o.k = "level" => s.lvl = o.v
Emit == shown # <<>> => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
