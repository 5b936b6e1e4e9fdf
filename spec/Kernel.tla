------------------------------- MODULE Kernel -------------------------------
(* Named groups of entities in a geometry kernel.  Space is divided into atoms <<x, y, k>>: in
   the plane k = 1..4 are the three rings of a unit cell and the rest of the cell, in space k
   is the layer.  An entity is a set of atoms with the names of its groups. *)
EXTENDS Common
Materials == "Material_"
InitK == [dim |-> 2, e |-> <<>>, ord |-> <<>>]

Beside(d, a, b) ==
    IF d = 2 THEN \/ a[1] = b[1] /\ a[2] = b[2] /\ Abs(a[3] - b[3]) = 1
                  \/ a[3] = 4 /\ b[3] = 4 /\ Abs(a[1] - b[1]) + Abs(a[2] - b[2]) = 1
    ELSE Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + Abs(a[3] - b[3]) = 1
RECURSIVE Grow(_, _, _)
Grow(d, S, T) == LET N == {a \in T \ S : \E b \in S : Beside(d, a, b)} IN IF N = {} THEN S ELSE Grow(d, S \cup N, T)
RECURSIVE Pieces(_, _)                        \* connected parts of a set of atoms
Pieces(d, T) == IF T = {} THEN {} ELSE LET c == TLCEval(Grow(d, {CHOOSE a \in T : TRUE}, T)) IN {c} \cup Pieces(d, T \ c)

Rect(d, o) == {<<x, y, k>> : x \in o.x..(o.x + o.w - 1), y \in o.y..(o.y + o.h - 1), k \in IF d = 2 THEN 1..4 ELSE o.z..(o.z + o.t - 1)}
Sel(s, A) == {i \in 1..Len(s.e) : s.e[i].at \cap A # {}}
AtomSet(q) == {q[i] : i \in 1..Len(q)}
Members(e, g) == {i \in 1..Len(e) : g \in e[i].gr}
(* groups exist while they have members and are known in the order they were made *)
WithGroups(s, names) == LET ord == s.ord \o SelectSeq(names, LAMBDA g : \A i \in 1..Len(s.ord) : s.ord[i] # g) IN
    [s EXCEPT !.ord = SelectSeq(ord, LAMBDA g : Members(s.e, g) # {})]
RECURSIVE Unique(_)
Unique(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Unique(SelectSeq(Tail(q), LAMBDA x : x # Head(q)))
AddEnts(s, es, names) == WithGroups([s EXCEPT !.e = @ \o es], Unique(names))
Ent(at, gr) == [at |-> at, gr |-> gr]

(* of the materials in the hierarchy an entity keeps the first *)
Resolve(gr, hier) ==
    LET H == {i \in 1..Len(hier) : (Materials \o hier[i]) \in gr} IN
    IF H = {} THEN gr ELSE (gr \ {Materials \o hier[i] : i \in 1..Len(hier)}) \cup {Materials \o hier[Min(H)]}
Ranked(s, hier) == WithGroups([s EXCEPT !.e = [i \in 1..Len(s.e) |-> [s.e[i] EXCEPT !.gr = Resolve(@, hier)]]], <<>>)
(* the participants P are split along each other; Keep says which overlap classes remain *)
Split(s, P, Keep(_)) ==
    LET atoms == UNION {s.e[i].at : i \in P}
        owners == TLCEval([a \in atoms |-> {i \in P : a \in s.e[i].at}])
        classes == {c \in {owners[a] : a \in atoms} : Keep(c)}
        new == TLCEval(UNION {{Ent(p, UNION {s.e[i].gr : i \in c}) : p \in Pieces(s.dim, {a \in atoms : owners[a] = c})} : c \in classes})
        rest == SelectSeq([i \in 1..Len(s.e) |-> <<i, s.e[i]>>], LAMBDA q : q[1] \notin P)
    IN WithGroups([s EXCEPT !.e = MapSeq(LAMBDA q : q[2], rest) \o SetToSeq(new)], <<>>)
Boolean(s, o) ==
    LET O == Sel(s, AtomSet(o.a)) T == Sel(s, AtomSet(o.b)) \ O IN
    IF O = {} \/ T = {} THEN s
    ELSE CASE o.k = "frag" -> Ranked(Split(s, O \cup T, LAMBDA c : TRUE), o.hier)
           [] o.k = "isect" -> Ranked(Split(s, O \cup T, LAMBDA c : c \cap O # {} /\ c \cap T # {}), o.hier)
           [] o.k = "cut" -> Split(s, O \cup T, LAMBDA c : c \cap T = {})
Refused(s, o) == LET O == Sel(s, AtomSet(o.a)) IN O = {} \/ Sel(s, AtomSet(o.b)) \ O = {}

(* concentric rings in cell <<x, y>>: the i-th runs from radius r[i - 1] to r[i] *)
Rings(x, y, r) == [i \in 1..Len(r) |-> {<<x, y, k>> : k \in ((IF i = 1 THEN 1 ELSE r[i - 1] + 1)..r[i])}]
Pin(s, x, y, r, m) == LET q == Rings(x, y, r) IN
    AddEnts(s, [i \in 1..Len(r) |-> Ent(q[i], {Materials \o m[i]})], [i \in 1..Len(r) |-> Materials \o m[i]])
(* rows are given top to bottom; one kind of pin after the other *)
PinCells(rows, p) == {<<c, r>> \in (1..Len(rows[1])) \X (1..Len(rows)) : rows[r][c] = p}
PinKind(s, o, p) ==
    LET cs == SetToSeq(PinCells(o.rows, p))
        def == o.pins[p + 1]
        ents == [j \in 1..(Len(cs) * Len(def.r)) |->
                    LET c == cs[((j - 1) \div Len(def.r)) + 1] i == ((j - 1) % Len(def.r)) + 1 IN
                    Ent(Rings(o.x + c[1] - 1, o.y + Len(o.rows) - c[2], def.r)[i], {Materials \o def.m[i]})]
    IN IF cs = <<>> THEN s ELSE AddEnts(s, ents, [i \in 1..Len(def.r) |-> Materials \o def.m[i]])
RECURSIVE PinKinds(_, _, _)
PinKinds(s, o, p) == IF p = Len(o.pins) THEN s ELSE PinKinds(TLCEval(PinKind(s, o, p)), o, p + 1)

(* ---- coarse grid: where a cell is first met, from the bottom left ---- *)
At(rows, x, y) == rows[Len(rows) + 1 - y][x]                       \* 1-based from the bottom
Sum0(n, F(_)) == SumSeq([i \in 1..n |-> F(i)])
CellW(o, c) == o.cells[c + 1][1]
CellH(o, c) == o.cells[c + 1][2]
RtmW(o, r) == LET q == o.rtms[r + 1] IN Sum0(Len(q[1]), LAMBDA x : CellW(o, At(q, x, 1)))
RtmH(o, r) == LET q == o.rtms[r + 1] IN Sum0(Len(q), LAMBDA y : CellH(o, At(q, 1, y)))
LatW(o, l) == LET q == o.lats[l + 1] IN Sum0(Len(q[1]), LAMBDA x : RtmW(o, At(q, x, 1)))
LatH(o, l) == LET q == o.lats[l + 1] IN Sum0(Len(q), LAMBDA y : RtmH(o, At(q, 1, y)))
Slots(q) == {<<x, y>> : x \in 1..Len(q[1]), y \in 1..Len(q)}
(* position within the container, in scan order: rows upwards, then columns *)
OffX(q, Wd(_), x) == Sum0(x - 1, LAMBDA i : Wd(At(q, i, 1)))
OffY(q, Ht(_), y) == Sum0(y - 1, LAMBDA i : Ht(At(q, 1, i)))
First(q, v) == CHOOSE p \in Slots(q) : At(q, p[1], p[2]) = v /\ \A r \in Slots(q) : At(q, r[1], r[2]) = v => p[2] < r[2] \/ (p[2] = r[2] /\ p[1] <= r[1])
Holds0(q, v) == \E p \in Slots(q) : At(q, p[1], p[2]) = v
(* the containers in the order they are met *)
ScanSeq(q) == LET n == Len(q[1]) IN [i \in 1..(n * Len(q)) |-> At(q, ((i - 1) % n) + 1, ((i - 1) \div n) + 1)]
FirstIn(seq, P(_)) == seq[IndexWhere(seq, P)]
CellRect(o, c) ==
    LET lat == FirstIn(ScanSeq(o.core), LAMBDA l : \E p \in Slots(o.lats[l + 1]) : Holds0(o.rtms[At(o.lats[l + 1], p[1], p[2]) + 1], c))
        pl == First(o.core, lat)
        lq == o.lats[lat + 1]
        rtm == FirstIn(ScanSeq(lq), LAMBDA r : Holds0(o.rtms[r + 1], c))
        pr == First(lq, rtm)
        rq == o.rtms[rtm + 1]
        pc == First(rq, c)
    IN [x |-> OffX(o.core, LAMBDA l : LatW(o, l), pl[1]) + OffX(lq, LAMBDA r : RtmW(o, r), pr[1]) + OffX(rq, LAMBDA q : CellW(o, q), pc[1]),
        y |-> OffY(o.core, LAMBDA l : LatH(o, l), pl[2]) + OffY(lq, LAMBDA r : RtmH(o, r), pr[2]) + OffY(rq, LAMBDA q : CellH(o, q), pc[2]),
        w |-> CellW(o, c), h |-> CellH(o, c), z |-> 1, t |-> 1]
Pad5(n) == LET t == ToString(n) IN SubSeq("00000", 1, 5 - Len(t)) \o t
CoarseName(i) == "Coarse_Cell_" \o Pad5(i - 1)
IsCoarse(g) == Len(g) > 11 /\ SubSeq(g, 1, 11) = "Coarse_Cell"
IsMaterial(g) == Len(g) > 9 /\ SubSeq(g, 1, 9) = Materials
MatNames(s) == MapSeq(LAMBDA g : SubSeq(g, 10, Len(g)), SelectSeq(s.ord, IsMaterial))
(* the fill material comes after all others *)
HierWithFill(s, f) == SelectSeq(MatNames(s), LAMBDA m : m # f) \o <<f>>
Overlay(s, o) ==
    LET n == Len(o.cells)
        hier == HierWithFill(s, o.fill)
        cells == [i \in 1..n |-> Ent(Rect(s.dim, CellRect(o, i - 1)), {Materials \o o.fill, CoarseName(i)})]
        t == AddEnts(s, cells, <<Materials \o o.fill>> \o [i \in 1..n |-> CoarseName(i)])
        u == Ranked(Split(t, 1..Len(t.e), LAMBDA c : TRUE), hier)
    IN WithGroups([u EXCEPT !.e = SelectSeq(u.e, LAMBDA e : \E g \in e.gr : IsCoarse(g))], <<>>)

Apply(s, o) ==
    CASE o.k = "dim" -> [s EXCEPT !.dim = o.d]
      [] o.k = "rect" -> AddEnts(s, <<Ent(Rect(s.dim, o), IF o.g = "" THEN {} ELSE {o.g})>>, IF o.g = "" THEN <<>> ELSE <<o.g>>)
      [] o.k = "pin" -> Pin(s, o.x, o.y, o.r, o.m)
      [] o.k = "pins" -> PinKinds(s, o, 0)
      [] o.k = "grp" -> LET P == Sel(s, AtomSet(o.a)) IN
            WithGroups([s EXCEPT !.e = [i \in 1..Len(s.e) |-> IF i \in P THEN [s.e[i] EXCEPT !.gr = @ \cup {o.g}] ELSE s.e[i]]], <<o.g>>)
      [] o.k \in {"frag", "isect", "cut"} -> Boolean(s, o)
      [] o.k = "over" -> Overlay(s, o)
      [] OTHER -> s
=============================================================================
