------------------------------- MODULE XsLib -------------------------------
(* Reading a multi-group cross section library line by line.  Values are integers in eighths
   (fission spectrum: 1/1024, masses: 10^-4, temperatures: quarters). *)
EXTENDS Common

ZeroX(g) == [a |-> Const(g, 0), f |-> Const(g, 0), nuf |-> Const(g, 0), tr |-> Const(g, 0), s |-> Const(g, 0),
             ss |-> Const(g, Const(g, 0))]
Start == [sec |-> "start", g |-> 0, n |-> 0, gb |-> <<>>, chi |-> <<>>, nuc |-> <<>>, rows |-> 0]
Cur(p) == Last(p.nuc)
WithRow(x, l) ==
    IF Has(l, "f")
    THEN [x EXCEPT !.a[l.g] = l.a, !.f[l.g] = l.f, !.nuf[l.g] = l.nuf, !.tr[l.g] = l.tr, !.s[l.g] = l.s,
                   !.ss[l.g] = [c \in 1..Len(x.a) |-> IF c >= l.lo /\ c < l.lo + Len(l.v) THEN l.v[c - l.lo + 1] ELSE 0]]
    ELSE [x EXCEPT !.a[l.g] = l.a]
(* the kinds of line that may come next *)
May(p, l) ==
    CASE p.sec = "start" -> l.k = "ver"
      [] p.sec = "ver" -> l.k = "dim"
      [] p.sec = "dim" -> l.k = "grp"
      [] p.sec = "grp" -> IF Len(p.gb) < p.g THEN l.k = "gb" /\ Len(p.gb) + Len(l.v) <= p.g ELSE l.k = "chi"
      [] p.sec = "chi" -> IF Len(p.chi) < p.g THEN l.k = "cv" /\ Len(p.chi) + Len(l.v) <= p.g ELSE l.k = "dir"
      [] p.sec = "dir" -> l.k \in {"other", "nuc"}
      [] p.sec = "nuc" -> l.k = "tp" /\ Len(l.v) = Len(Cur(p).xs)
      [] p.sec = "tp" -> l.k = "xsd"
      [] p.sec = "xsd" -> IF p.rows < p.g * Len(Cur(p).xs)
                          THEN l.k = "row" /\ l.g = p.rows \div Len(Cur(p).xs) + 1 /\ l.t = (p.rows % Len(Cur(p).xs)) + 1
                          ELSE IF Len(p.nuc) = p.n THEN l.k \in {"other", "end"} ELSE l.k \in {"other", "nuc"}
      [] OTHER -> FALSE
Line(p, l) ==
    CASE l.k = "dim" -> [p EXCEPT !.sec = "dim", !.g = l.g, !.n = l.n]
      [] l.k = "gb" -> [p EXCEPT !.gb = @ \o l.v]
      [] l.k = "cv" -> [p EXCEPT !.chi = @ \o l.v]
      [] l.k = "nuc" -> [p EXCEPT !.sec = "nuc", !.rows = 0,
                            !.nuc = Append(@, [z |-> l.z, mass |-> l.m, tp |-> <<>>, xs |-> Const(l.nt, ZeroX(p.g))])]
      [] l.k = "tp" -> [p EXCEPT !.sec = "tp", !.nuc[Len(p.nuc)].tp = l.v]
      [] l.k = "row" -> [p EXCEPT !.rows = @ + 1, !.nuc[Len(p.nuc)].xs[l.t] = WithRow(@, l)]
      [] l.k = "other" -> p
      [] OTHER -> [p EXCEPT !.sec = l.k]
ReadLib(lines) == FoldLeft(LAMBDA p, l : Line(p, l), Start, lines)
RECURSIVE OkFrom(_, _, _)
OkFrom(p, lines, i) == i > Len(lines) \/ (May(p, lines[i]) /\ OkFrom(Line(p, lines[i]), lines, i + 1))
WellFormed(lines) == OkFrom(Start, lines, 1) /\ Last(lines).k = "end"
FissileOf(x) == \E g \in 1..Len(x.f) : x.f[g] > 0
Find(p, z) == IndexWhere(p.nuc, LAMBDA n : n.z = z)
=============================================================================
