------------------------------ MODULE SoupTrace ------------------------------
EXTENDS MeshDoc
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ st = SInit
Pts(so, i) == MapSeq(LAMBDA x : so.v[x + 1], so.e[i].c)
InRange(so) == \A i \in 1..Len(so.e) : \A x \in Range(so.e[i].c) : x >= 0 /\ x < Len(so.v)
(* equal up to the numbering of the vertices and the order of the sets *)
Same(a, b) ==
    /\ Agree("number of vertices", Len(a.v), Len(b.v))
    /\ Agree("number of elements", Len(a.e), Len(b.e))
    /\ Holds("vertex ids", InRange(b), b)
    /\ \A p \in Range(a.v) \cup Range(b.v) :
          Agree("vertices", Cardinality({i \in 1..Len(a.v) : a.v[i] = p}), Cardinality({i \in 1..Len(b.v) : b.v[i] = p}))
    /\ \A i \in 1..Len(a.e) : Agree("element", <<a.e[i].t, Pts(a, i)>>, <<b.e[i].t, Pts(b, i)>>)
    /\ \A i, j \in 1..Len(a.e) : Agree("shared vertices",
            {<<p, q>> \in (1..Len(a.e[i].c)) \X (1..Len(a.e[j].c)) : a.e[i].c[p] = a.e[j].c[q]},
            {<<p, q>> \in (1..Len(b.e[i].c)) \X (1..Len(b.e[j].c)) : b.e[i].c[p] = b.e[j].c[q]})
    /\ Agree("sets", Range(a.s), Range(b.s)) /\ Agree("number of sets", Len(a.s), Len(b.s))
TypesOf(so) == {so.e[i].t : i \in 1..Len(so.e)}
Extra(o, out) ==
    LET so == st[o.s + 1] IN
    CASE o.k = "get" -> LET j == SetPos(so, o.n) IN
                        IF j = 0 THEN TRUE
                        ELSE Agree("set ids", so.s[j].i, out.gi) /\ Agree("set data", so.s[j].d, out.gd)
      [] o.k = "geti" -> Agree("set", so.s[o.i + 1], [n |-> out.gn, i |-> out.gi, d |-> out.gd])
      [] o.k = "gete" -> Agree("element", so.e[o.i + 1], [t |-> out.gt, c |-> out.gc])
      [] o.k = "types" -> Agree("types", TypesOf(so), Range(out.ty)) /\ Agree("number of types", Cardinality(TypesOf(so)), Len(out.ty))
      [] OTHER -> TRUE
Step(o, out) ==
    /\ (Has(o, "any") \/ Pre(st, o))
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ Agree("returned", Ret(st, o), out.ret)
    /\ Extra(o, out)
    /\ LET x == Apply(st, o) IN
       IF o.k = "sub" /\ SetPos(st[o.s + 1], o.n) # 0
       THEN /\ Same(x[o.t + 1], out.s[o.t + 1])
            /\ st' = [x EXCEPT ![o.t + 1] = out.s[o.t + 1]]
            /\ \A i \in (1..NSoup) \ {o.t + 1} : Agree("soup", x[i], out.s[i])
       ELSE IF o.k = "rd"
       THEN LET want == DocSoup(o.doc) got == out.s[o.t + 1] IN
            /\ Agree("vertices", want.v, got.v) /\ Agree("elements", want.e, got.e)
            /\ Agree("sets", Range(want.s), Range(got.s)) /\ Agree("number of sets", Len(want.s), Len(got.s))
            /\ st' = [st EXCEPT ![o.t + 1] = got]
            /\ \A i \in (1..NSoup) \ {o.t + 1} : Agree("soup", st[i], out.s[i])
       ELSE IF o.k = "app" /\ Has(o, "any")       \* only the consistency of the result is stated
       THEN /\ Holds("well formed", WellFormed(out.s[o.s + 1]), out.s[o.s + 1])
            /\ st' = [st EXCEPT ![o.s + 1] = out.s[o.s + 1]]
       ELSE st' = x /\ \A i \in 1..NSoup : Agree("soup", x[i], out.s[i])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN st' = SInit ELSE Step(e.op, e.out)
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
