----------------------------- MODULE LogTrace -----------------------------
EXTENDS Log
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ch(t, i) == SubSeq(t, i, i)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Num(t, i) == IndexWhere(Digits, LAMBDA d : d = Ch(t, i)) - 1          \* -1: not a digit
Stamp == 15                                            \* [HH:MM:SS.mmm] and a blank
StampOk(t) == /\ Len(t) >= Stamp /\ Ch(t, 1) = "[" /\ SubSeq(t, 14, 15) = "] " /\ Ch(t, 4) = ":" /\ Ch(t, 7) = ":" /\ Ch(t, 10) = "."
              /\ \A i \in {2, 3, 5, 6, 8, 9, 11, 12, 13} : Num(t, i) >= 0
Seconds(t) == 36000 * Num(t, 2) + 3600 * Num(t, 3) + 600 * Num(t, 5) + 60 * Num(t, 6) + 10 * Num(t, 8) + Num(t, 9)
Text(m) == FoldLeft(LAMBDA x, a : x \o a, Names[m.l] \o " - ", m.a)
(* a line x of the message m under the settings s *)
LineOk(s, m, x) ==
    LET full == Text(m)
        n == Len(full) + (IF s.ts THEN Stamp ELSE 0)
        body == IF s.ts THEN SubSeq(x.t, Stamp + 1, Len(x.t)) ELSE x.t
    IN /\ s.ts => Holds("time stamp", StampOk(x.t), x.t)
       /\ (s.ts /\ StampOk(x.t) /\ s.age >= 0) => Holds("time", Seconds(x.t) >= s.age /\ Seconds(x.t) <= s.age + 20, <<s.age, x.t>>)
       /\ IF n <= 240 THEN Agree("line", full, body)
          ELSE Holds("cut line", Len(x.t) >= 200 /\ Len(body) <= Len(full) /\ body = SubSeq(full, 1, Len(body)), <<full, body>>)
       /\ IF ~s.col THEN Agree("no colour", 0, x.n)
          ELSE /\ m.l # 3 => Holds("colour", x.pre # "" /\ x.pre # "[0m", x)
               /\ x.pre # "" => Agree("end of colour", "[0m", x.end)
LinesOk(s, ms, xs) ==
    /\ Agree("number of lines", Len(ms), Len(xs))
    /\ Len(ms) = Len(xs)
    /\ \A i \in 1..Len(ms) : LineOk(s, ms[i], xs[i])
    \* the colour tells the level
    /\ s.col => \A i, j \in 1..Len(ms) : Holds("colour of the level", (xs[i].pre = xs[j].pre) <=> (ms[i].l = ms[j].l), <<xs[i], xs[j]>>)
Conform(s, t, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ IF o.k = "say"
       THEN LET r == Say(s, o.ms, out.max) IN
            /\ Agree("exit", IF r.exit THEN 1 ELSE 77, out.exit)
            /\ LinesOk(s, r.o, out.o) /\ LinesOk(s, r.e, out.e)
            /\ LET en == SelectSeq(o.ms, LAMBDA m : Enabled(s, m.l, Limit(m, out.max))) IN
               (Has(out, "last") /\ en # <<>>) => LineOk(s, en[Len(en)], out.last)
       ELSE /\ Agree("settings", <<t.lvl, B01(t.ts), B01(t.col), B01(t.ex), t.lvl>>, <<out.lvl, out.ts, out.col, out.ex, out.slvl>>)
            /\ IF o.k \in {"init", "fini"}
               THEN LET m == IF t.lvl >= 3 THEN 1 ELSE 0 IN
                    /\ Agree("lines", m, Len(out.o)) /\ Agree("errors", 0, Len(out.e))
                    /\ m = 1 => LineOk(t, [l |-> 3, m |-> 0, a |-> <<IF o.k = "init" THEN "Initializing UM2" ELSE "Finalizing UM2">>], out.o[1])
               ELSE Agree("no output", <<<<>>, <<>>>>, <<out.o, out.e>>)
TInit == l = 1 /\ st = Start
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = Start
            ELSE st' = Step(st, e.op) /\ Conform(st, st', e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
