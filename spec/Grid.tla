-------------------------------- MODULE Grid --------------------------------
(* Regular and rectilinear grids and the partitions built on them.  A grid is a record
   [d, divs, reg]: its division coordinates along each axis (integers).  A partition adds one
   child per cell.  Slots hold independent values. *)
EXTENDS Common

Empty == [k |-> "none", d |-> 0, divs |-> <<>>, ch |-> <<>>]
N(g, a) == Len(g.divs[a]) - 1
Total(g) == FoldLeft(LAMBDA acc, a : acc * N(g, a), 1, [i \in 1..g.d |-> i])
Lo(g) == [a \in 1..g.d |-> g.divs[a][1]]
Hi(g) == [a \in 1..g.d |-> Last(g.divs[a])]
(* the k-th cell (from 0) with the first axis fastest *)
CellIdx(g, k) ==
    <<k % N(g, 1)>> \o (IF g.d > 1 THEN <<(k \div N(g, 1)) % N(g, 2)>> ELSE <<>>)
                    \o (IF g.d > 2 THEN <<k \div (N(g, 1) * N(g, 2))>> ELSE <<>>)
BoxLo(g, i) == [a \in 1..g.d |-> g.divs[a][i[a] + 1]]
BoxHi(g, i) == [a \in 1..g.d |-> g.divs[a][i[a] + 2]]
(* index along an axis of the half-open cell holding x, -1 outside *)
AxisFind(g, a, x) == LET S == {i \in 1..N(g, a) : g.divs[a][i] <= x /\ x < g.divs[a][i + 1]}
                     IN IF S = {} THEN -1 ELSE Min(S) - 1
Find(g, p) == [a \in 1..g.d |-> AxisFind(g, a, p[a])]
(* half-open cells along an axis that meet the closed interval [x, y] *)
AxisTouch(g, a, x, y) == {i \in 1..N(g, a) : g.divs[a][i] <= y /\ x < g.divs[a][i + 1]}
Touch(g, lo, hi) == [e \in 1..(2 * g.d) |->
    LET a == IF e > g.d THEN e - g.d ELSE e  S == AxisTouch(g, a, lo[a], hi[a])
    IN IF S = {} THEN -1 ELSE IF e > g.d THEN Max(S) - 1 ELSE Min(S) - 1]

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Regular(o) == [a \in 1..o.d |-> [i \in 1..(o.n[a] + 1) |-> o.lo[a] + (i - 1) * o.sp[a]]]
FromBox(o) == [a \in 1..o.d |-> <<o.lo[a], o.hi[a]>>]
FromBoxes(o) == [a \in 1..o.d |-> Sorted(UNION {{o.bs[i][1][a], o.bs[i][2][a]} : i \in 1..Len(o.bs)})]
RECURSIVE Cum(_, _)
Cum(x, s) == IF s = <<>> THEN <<x>> ELSE <<x>> \o Cum(x + Head(s), Tail(s))
Rows(o) == Reverse(o.rows)                                     \* bottom row first
FromIds(o) == LET R == Rows(o) IN
    <<Cum(0, [j \in 1..Len(R[1]) |-> o.e[R[1][j] + 1][1]]), Cum(0, [i \in 1..Len(R) |-> o.e[R[i][1] + 1][2]])>>
IdChildren(o) == FlattenSeq(Rows(o))

New(k, d, divs) == [k |-> k, d |-> d, divs |-> divs, ch |-> <<>>]
FlatOf(g, i) == CHOOSE k \in 0..(Total(g) - 1) : CellIdx(g, k) = i
Apply(S, o) ==
    CASE o.k = "reg" -> [S EXCEPT ![o.a + 1] = New("reg", o.d, Regular(o))]
      [] o.k = "regbox" -> [S EXCEPT ![o.a + 1] = New("reg", o.d, FromBox(o))]
      [] o.k = "rectbox" -> [S EXCEPT ![o.a + 1] = New("rect", o.d, FromBox(o))]
      [] o.k = "boxes" -> [S EXCEPT ![o.a + 1] = New("rect", o.d, FromBoxes(o))]
      [] o.k = "ids" -> [S EXCEPT ![o.a + 1] = New("rect", 2, FromIds(o))]
      [] o.k = "pids" -> [S EXCEPT ![o.a + 1] = [New("rect", 2, FromIds(o)) EXCEPT !.ch = IdChildren(o)]]
      [] o.k = "part" -> [S EXCEPT ![o.a + 1].ch = o.ch]
      [] o.k = "set" -> LET g == S[o.a + 1] IN [S EXCEPT ![o.a + 1].ch[FlatOf(g, o.i) + 1] = o.v]
      [] o.k = "copy" -> [S EXCEPT ![o.a + 1] = S[o.b + 1]]
      [] o.k = "clear" -> [S EXCEPT ![o.a + 1].divs = [a \in 1..S[o.a + 1].d |-> <<>>], ![o.a + 1].ch = <<>>]
      [] OTHER -> S

(* ---- what a well-formed grid is (checked on the model) ---- *)
Points(g) == LET L == {x \in (Min(UNION {{g.divs[a][1]} : a \in 1..g.d}) - 1)..(Max({Last(g.divs[a]) : a \in 1..g.d}) + 1) : TRUE}
             IN [1..g.d -> L]
Inside(g, i, p) == \A a \in 1..g.d : BoxLo(g, i)[a] <= p[a] /\ p[a] < BoxHi(g, i)[a]
CellsOf(g) == {CellIdx(g, k) : k \in 0..(Total(g) - 1)}
TileOk(g) ==
    /\ Cardinality(CellsOf(g)) = Total(g)
    /\ \A k \in 0..(Total(g) - 1) : FlatOf(g, CellIdx(g, k)) = k
    /\ \A p \in Points(g) :
          LET C == {i \in CellsOf(g) : Inside(g, i, p)} IN
          IF \A a \in 1..g.d : Lo(g)[a] <= p[a] /\ p[a] < Hi(g)[a]
          THEN C = {Find(g, p)} ELSE C = {} /\ \E a \in 1..g.d : Find(g, p)[a] = -1
TouchOk(g, lo, hi) ==
    LET t == Touch(g, lo, hi)
        \* cells meeting the closed box, by definition
        C == {i \in CellsOf(g) : \A a \in 1..g.d : BoxLo(g, i)[a] <= hi[a] /\ lo[a] < BoxHi(g, i)[a]}
        R == IF \E e \in 1..(2 * g.d) : t[e] = -1 THEN {} ELSE {i \in CellsOf(g) : \A a \in 1..g.d : t[a] <= i[a] /\ i[a] <= t[a + g.d]}
    IN C = R /\ \A a \in 1..g.d : (t[a] = -1) <=> (t[a + g.d] = -1)
=============================================================================
