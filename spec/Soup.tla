-------------------------------- MODULE Soup --------------------------------
(* Polytope soups: vertices, typed elements over them, uniquely named sorted element sets
   with optional data.  Three soups that can be appended, copied and extracted from. *)
EXTENDS Common
NSoup == 3
Empty == [v |-> <<>>, e |-> <<>>, s |-> <<>>]
SInit == [i \in 1..NSoup |-> Empty]
Ascii == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
Codes(n) == [i \in 1..Len(n) |-> CharCode[SubSeq(n, i, i)]]
NameLess(a, b) == LexLess(Codes(a), Codes(b))
Names(so) == [i \in 1..Len(so.s) |-> so.s[i].n]
NameSet(so) == {so.s[i].n : i \in 1..Len(so.s)}
SetPos(so, n) == IndexWhere(so.s, LAMBDA x : x.n = n)
SortedNames(so) == \A i \in 1..(Len(so.s) - 1) : NameLess(so.s[i].n, so.s[i + 1].n)
SortSets(ss) == SortSeq(ss, LAMBDA a, b : NameLess(a.n, b.n))
Shift(so, d) == [so EXCEPT !.v = MapSeq(LAMBDA p : <<p[1] + d[1], p[2] + d[2], p[3] + d[3]>>, so.v)]
(* --- appending b to a --- *)
Moved(x, n) == [x EXCEPT !.i = MapSeq(LAMBDA y : y + n, x.i)]
JoinSets(a, b) ==
    LET n == Len(a.e)
        one(x) == LET j == SetPos(b, x.n) IN
                  IF j = 0 THEN x ELSE [x EXCEPT !.i = x.i \o Moved(b.s[j], n).i, !.d = x.d \o b.s[j].d]
        new == SelectSeq(b.s, LAMBDA y : y.n \notin NameSet(a))
    IN IF b.s = <<>> THEN a.s ELSE SortSets(MapSeq(one, a.s) \o MapSeq(LAMBDA y : Moved(y, n), new))
Join(a, b) ==
    [v |-> a.v \o b.v,
     e |-> a.e \o MapSeq(LAMBDA x : [x EXCEPT !.c = MapSeq(LAMBDA y : y + Len(a.v), x.c)], b.e),
     s |-> JoinSets(a, b)]
(* sets of equal name must agree on carrying data, and both sides must be sorted *)
JoinPre(a, b) ==
    b.s # <<>> =>
      /\ SortedNames(a) /\ SortedNames(b)
      /\ \A n \in NameSet(a) \cap NameSet(b) :
            (a.s[SetPos(a, n)].d = <<>>) = (b.s[SetPos(b, n)].d = <<>>)
(* --- the soup of the elements of a set --- *)
Subset(so, n) ==
    LET j == SetPos(so, n) IN
    IF j = 0 THEN Empty
    ELSE LET ids == so.s[j].i
             used == SetToSortSeq(UNION {Range(so.e[i + 1].c) : i \in Range(ids)}, <)
             vpos(x) == IndexWhere(used, LAMBDA y : y = x) - 1
             epos(x) == IndexWhere(ids, LAMBDA y : y = x) - 1
             cut(x) == LET keep == SelectSeq([q \in 1..Len(x.i) |-> q], LAMBDA q : x.i[q] \in Range(ids))
                       IN [n |-> x.n, i |-> MapSeq(LAMBDA q : epos(x.i[q]), keep),
                           d |-> IF x.d = <<>> THEN <<>> ELSE MapSeq(LAMBDA q : x.d[q], keep)]
             others == SelectSeq(so.s, LAMBDA x : x.n # n /\ Range(x.i) \cap Range(ids) # {})
         IN [v |-> MapSeq(LAMBDA x : so.v[x + 1], used),
             e |-> MapSeq(LAMBDA i : [t |-> so.e[i + 1].t, c |-> MapSeq(vpos, so.e[i + 1].c)], ids),
             s |-> MapSeq(cut, others)]
(* --- calls --- *)
Accepts(so, o) == /\ o.n \notin NameSet(so) /\ o.i # <<>> /\ (o.d = <<>> \/ Len(o.d) = Len(o.i))
Pre(st, o) ==
    CASE o.k = "elem" -> \A x \in Range(o.c) : x >= 0 /\ x < Len(st[o.s + 1].v)
      [] o.k = "elset" -> /\ \A x \in Range(o.i) : x >= 0 /\ x < Len(st[o.s + 1].e)
                          /\ \A i \in 1..(Len(o.i) - 1) : o.i[i] < o.i[i + 1]
      [] o.k = "app" -> JoinPre(st[o.s + 1], st[o.t + 1])
      [] o.k = "geti" -> o.i < Len(st[o.s + 1].s)
      [] o.k = "gete" -> o.i < Len(st[o.s + 1].e)
      [] OTHER -> TRUE
Apply(st, o) ==
    LET q == o.s + 1 so == st[q] IN
    CASE o.k = "vert" -> [st EXCEPT ![q].v = Append(@, o.p)]
      [] o.k = "elem" -> [st EXCEPT ![q].e = Append(@, [t |-> o.ty, c |-> o.c])]
      [] o.k = "elset" -> IF Accepts(so, o) THEN [st EXCEPT ![q].s = Append(@, [n |-> o.n, i |-> o.i, d |-> o.d])] ELSE st
      [] o.k = "trans" -> [st EXCEPT ![q] = Shift(so, o.p)]
      [] o.k = "sort" -> [st EXCEPT ![q].s = SortSets(so.s)]
      [] o.k = "app" -> [st EXCEPT ![q] = Join(so, st[o.t + 1])]
      [] o.k = "sub" -> [st EXCEPT ![o.t + 1] = Subset(so, o.n)]
      [] o.k = "copy" -> [st EXCEPT ![o.t + 1] = so]
      [] o.k = "wr" -> [st EXCEPT ![o.t + 1] = so]
      [] o.k = "clear" -> [st EXCEPT ![q] = Empty]
      [] OTHER -> st
Ret(st, o) ==
    LET so == st[o.s + 1] IN
    CASE o.k = "vert" -> Len(so.v)
      [] o.k = "elem" -> Len(so.e)
      [] o.k = "elset" -> IF Accepts(so, o) THEN Len(so.s) ELSE -1
      [] o.k = "cmp" -> IF so = st[o.t + 1] THEN 0 ELSE 1
      [] OTHER -> 0
(* --- consistency of a soup --- *)
WellFormed(so) ==
    /\ \A i \in 1..Len(so.e) : \A x \in Range(so.e[i].c) : x >= 0 /\ x < Len(so.v)
    /\ \A i, j \in 1..Len(so.s) : so.s[i].n = so.s[j].n => i = j
    /\ \A i \in 1..Len(so.s) :
         LET x == so.s[i] IN
         /\ x.i # <<>> /\ (x.d = <<>> \/ Len(x.d) = Len(x.i))
         /\ \A k \in 1..Len(x.i) : x.i[k] >= 0 /\ x.i[k] < Len(so.e)
         /\ \A k \in 1..(Len(x.i) - 1) : x.i[k] < x.i[k + 1]
=============================================================================
