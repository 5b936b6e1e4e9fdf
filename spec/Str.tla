-------------------------------- MODULE Str --------------------------------
(* Strings and string views.  A text is a sequence of character codes.  State: NS string
   variables and one view; one action per public member. *)
EXTENDS Common
CONSTANTS NS, Depth, Texts

Ss == 0..(NS - 1)
StrInit == [s |-> [i \in Ss |-> <<>>], w |-> <<>>]

Prefix(t, n) == SubSeq(t, 1, n)
Drop(t, n) == SubSeq(t, n + 1, Len(t))
StartsWith(t, p) == Len(p) <= Len(t) /\ Prefix(t, Len(p)) = p
EndsWith(t, p) == Len(p) <= Len(t) /\ Drop(t, Len(t) - Len(p)) = p
Sign(l, r) == IF LexLess(l, r) THEN -1 ELSE IF l = r THEN 0 ELSE 1
(* positions are 0-based; -1 stands for "not found" *)
FirstOf(t, c, pos) ==
    LET S == {i \in pos..(Len(t) - 1) : t[i + 1] = c} IN IF S = {} THEN -1 ELSE Min(S)
FirstNotOf(t, c, pos) ==
    LET S == {i \in pos..(Len(t) - 1) : t[i + 1] # c} IN IF S = {} THEN -1 ELSE Min(S)
LastOf(t, c, pos) ==
    LET S == {i \in 0..MinI(pos, Len(t) - 1) : t[i + 1] = c} IN IF S = {} THEN -1 ELSE Max(S)
FindSub(t, p, pos) ==
    LET S == {i \in pos..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p}
    IN IF S = {} THEN -1 ELSE Min(S)
(* Token split: <<token, rest>>.  A text of delimiters only yields no token and is kept. *)
SplitTok(t, d) ==
    LET n == FirstNotOf(t, d, 0) IN
    IF n = -1 THEN <<<<>>, t>>
    ELSE LET m == FirstOf(t, d, n) IN
         IF m = -1 THEN <<Drop(t, n), <<>>>>
         ELSE <<SubSeq(t, n + 1, m), Drop(t, m + 1)>>
TrimLead(t) == LET n == FirstNotOf(t, 32, 0) IN IF n = -1 THEN <<>> ELSE Drop(t, n)
(* Decimal texts. *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pad(n, w) == LET d == Digits(n) IN Const(w - Len(d), 48) \o d
IntText(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
WideText(neg, hi, lo) == (IF neg THEN <<45>> ELSE <<>>)
                         \o (IF hi = 0 THEN Digits(lo) ELSE Digits(hi) \o Pad(lo, 9))
(* n / 64 with six decimals; exact because 10^6 / 64 = 15625 *)
FixedText(n) == LET m == Abs(n) * 15625 IN
    (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(m \div 1000000) \o <<46>> \o Pad(m % 1000000, 6)

Sub(t, pos, count) == SubSeq(t, pos + 1, MinI(Len(t), pos + count))

Apply(st, o) ==
    CASE o.k \in {"cstr", "ctorview", "setcstr", "assignview"} -> [st EXCEPT !.s[o.a] = o.xs]
      [] o.k \in {"copy", "asgn"} -> [st EXCEPT !.s[o.a] = st.s[o.b]]
      [] o.k \in {"move", "masgn"} -> IF o.a = o.b THEN st
                         ELSE [st EXCEPT !.s[o.a] = st.s[o.b], !.s[o.b] = <<>>]
      [] o.k \in {"substr", "subctor"} -> [st EXCEPT !.s[o.a] = Sub(st.s[o.b], o.p, o.n)]
      [] o.k = "assignsub" -> [st EXCEPT !.s[o.a] = Sub(st.s[o.b], o.p, o.n)]
      [] o.k \in {"addc", "app"} -> [st EXCEPT !.s[o.a] = st.s[o.a] \o o.xs]
      [] o.k = "adds" -> [st EXCEPT !.s[o.a] = st.s[o.a] \o st.s[o.b]]
      [] o.k = "plus" -> [st EXCEPT !.s[o.a] = st.s[o.b] \o st.s[o.c]]
      [] o.k = "plusc" -> [st EXCEPT !.s[o.a] = st.s[o.b] \o o.xs]
      [] o.k = "front" -> [st EXCEPT !.s[o.a][1] = o.x]
      [] o.k = "back" -> [st EXCEPT !.s[o.a][Len(st.s[o.a])] = o.x]
      [] o.k = "int" -> [st EXCEPT !.s[o.a] = IntText(o.n)]
      [] o.k = "wide" -> [st EXCEPT !.s[o.a] = WideText(o.neg, o.hi, o.lo)]
      [] o.k \in {"dbl", "flt"} -> [st EXCEPT !.s[o.a] = FixedText(o.n)]
      [] o.k = "view" -> [st EXCEPT !.w = o.xs]
      [] o.k = "vprefix" -> [st EXCEPT !.w = Drop(st.w, o.n)]
      [] o.k = "vtrim" -> [st EXCEPT !.w = TrimLead(st.w)]
      [] o.k = "vtok" -> [st EXCEPT !.w = SplitTok(st.w, o.d)[2]]
      [] o.k = "end" -> StrInit
      [] OTHER -> st                            \* queries

Pre(st, o) ==
    CASE o.k \in {"front", "back"} -> Len(st.s[o.a]) > 0
      [] o.k \in {"substr", "subctor"} -> o.p <= Len(st.s[o.b]) /\ o.n >= 0
      [] o.k = "assignsub" -> o.a # o.b /\ o.p + o.n <= Len(st.s[o.b])
      [] o.k = "vprefix" -> o.n <= Len(st.w)
      [] o.k = "vsub" -> o.p + o.n <= Len(st.w)
      [] o.k = "move" -> o.a # o.b
      [] o.k \in {"vfind", "vsub", "vcmp"} -> Len(st.w) > 0
      [] OTHER -> TRUE

B(x) == IF x THEN 1 ELSE 0
Cmps(l, r) == <<B(l = r), B(l # r), B(LexLess(l, r)), B(~LexLess(r, l)), B(LexLess(r, l)),
                B(~LexLess(l, r)), Sign(l, r)>>
Result(st, o) ==
    CASE o.k = "cmp" -> Cmps(st.s[o.a], st.s[o.b]) \o Cmps(st.s[o.a], st.s[o.b])
      [] o.k = "cmpc" -> <<Sign(st.s[o.a], o.xs), Sign(st.s[o.a], o.xs)>>
      [] o.k = "pre" -> LET t == st.s[o.a] IN
            <<B(StartsWith(t, o.xs)), B(StartsWith(t, o.xs)), B(EndsWith(t, o.xs)), B(EndsWith(t, o.xs)),
              B(StartsWith(t, <<o.x>>)), B(EndsWith(t, <<o.x>>))>>
      [] o.k = "flast" -> <<LastOf(st.s[o.a], o.x, o.p), LastOf(st.s[o.a], o.x, Len(st.s[o.a]))>>
      [] o.k = "vtok" -> SplitTok(st.w, o.d)[1]
      [] o.k = "vsub" -> SubSeq(st.w, o.p + 1, o.p + o.n)
      [] o.k = "vfind" ->
            <<FirstOf(st.w, o.x, o.p), FirstNotOf(st.w, o.x, o.p), LastOf(st.w, o.x, o.p),
              LastOf(st.w, o.x, Len(st.w)), FirstOf(st.w, o.x, 0), FirstNotOf(st.w, o.x, 0)>>
      [] o.k = "vfinds" -> <<FindSub(st.w, o.xs, o.p), FindSub(st.w, o.xs, o.p),
                             FindSub(st.w, Prefix(o.xs, o.n), o.p), FindSub(st.w, o.xs, 0)>>
      [] o.k = "vcmp" -> Cmps(st.w, o.xs) \o <<B(StartsWith(st.w, o.xs)), B(StartsWith(st.w, o.xs)),
                                               B(EndsWith(st.w, o.xs)), B(EndsWith(st.w, o.xs)),
                                               st.w[1], st.w[Len(st.w)], st.w[(o.p % Len(st.w)) + 1]>>
      [] OTHER -> <<>>

AllOps ==
    [k : {"cstr", "setcstr", "assignview", "addc"}, a : Ss, xs : Texts]
    \cup [k : {"copy", "asgn", "move", "masgn", "adds", "cmp"}, a : Ss, b : Ss]
    \cup [k : {"plus"}, a : Ss, b : Ss, c : {0}]
    \cup [k : {"substr"}, a : Ss, b : Ss, p : {0, 1, 22}, n : {1, 22, 23}]
    \cup [k : {"back"}, a : Ss, x : {98}]

VARIABLES st, hist
vars == <<st, hist>>
Init == st = StrInit /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in AllOps :
          Pre(st, o) /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
          /\ \A i \in Ss : Len(st'.s[i]) <= 60
Spec == Init /\ [][Next]_vars
(* design invariants: the order is total, concatenation and sub-texts are consistent *)
OrderOK == \A i, j \in Ss : LET l == st.s[i] r == st.s[j] IN
              /\ Sign(l, r) = -Sign(r, l)
              /\ (Sign(l, r) = 0) <=> (l = r)
              /\ StartsWith(l \o r, l) /\ EndsWith(l \o r, r)
              /\ FindSub(l \o r, r, Len(l)) = Len(l)
TokenOK == \A i \in Ss : LET t == st.s[i] p == SplitTok(t, 97) IN
              /\ \A j \in 1..Len(p[1]) : p[1][j] # 97
              /\ Len(p[1]) + Len(p[2]) <= Len(t)
              /\ EndsWith(t, p[2])
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson(hist))
View == st
=============================================================================
