-------------------------------- MODULE Log --------------------------------
(* The logger: settings decide which messages appear, where, how, and whether an error ends the
   process.  age = seconds since the clock of the log was started, -1 = not known. *)
EXTENDS Common
Defaults == [lvl |-> 3, ts |-> TRUE, col |-> TRUE, ex |-> TRUE, age |-> 0]
Start == [Defaults EXCEPT !.age = -1]
Names == <<"ERROR", "WARN", "INFO", "DEBUG">>
B01(b) == IF b THEN 1 ELSE 0
(* effect of an operation other than a message *)
Step(s, o) ==
    CASE o.k = "level" -> [s EXCEPT !.lvl = o.v]
      [] o.k = "flag" -> (CASE o.f = "ts" -> [s EXCEPT !.ts = (o.v = 1)]
                            [] o.f = "col" -> [s EXCEPT !.col = (o.v = 1)]
                            [] o.f = "ex" -> [s EXCEPT !.ex = (o.v = 1)])
      [] o.k = "restore" -> Defaults
      [] o.k = "init" -> [Defaults EXCEPT !.col = FALSE]       \* the streams are no terminal
      [] o.k = "age" -> [s EXCEPT !.age = IF @ < 0 THEN @ ELSE @ + o.v]
      [] OTHER -> s
Enabled(s, lvl, max) == lvl <= s.lvl /\ lvl <= max
Limit(m, max) == IF m.m = 1 THEN max ELSE 4
(* what a sequence of messages leads to: lines on the two streams, and whether the process ended *)
RECURSIVE Say(_, _, _)
Say(s, ms, max) ==
    IF ms = <<>> THEN [o |-> <<>>, e |-> <<>>, exit |-> FALSE]
    ELSE LET m == Head(ms) IN
         IF ~Enabled(s, m.l, Limit(m, max)) THEN Say(s, Tail(ms), max)
         ELSE IF m.l = 1 /\ s.ex THEN [o |-> <<>>, e |-> <<m>>, exit |-> TRUE]
         ELSE LET r == Say(s, Tail(ms), max) IN
              IF m.l = 1 THEN [r EXCEPT !.e = <<m>> \o @] ELSE [r EXCEPT !.o = <<m>> \o @]
=============================================================================
