----------------------------- MODULE OrderTrace -----------------------------
EXTENDS Order
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
B01(x) == IF x THEN 1 ELSE 0
Sets(s) == TLCEval([i \in 1..Len(s) |-> Range(s[i])])
CodesOk(o, a, c) ==        \* codes belong to the points
    \A i \in 1..Len(a) : LET w == Width("u32", o.d) IN
        Holds("code", \A k \in 1..o.d : Quantised(a[i][k], w, Axis(Range(c[i]), o.d, k))
                      \/ Quantised(a[i][k], Width("u64", o.d), Axis(Range(c[i]), o.d, k)), <<a[i], c[i]>>)
Ascending(cs) == \A i \in 1..(Len(cs) - 1) : ~CodeLess(cs[i + 1], cs[i])
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k \in {"isort", "sort3", "sort4"} -> Agree("sorted", Sorted(o.a), out.a)
         [] o.k = "sperm" -> Holds("sorting permutation", Sorts(out.p, o.a), out) /\ Agree("input", o.a, out.a)
         [] o.k = "apply" -> Agree("permuted", Permute(o.a, s), out.a) /\ Agree("permutation", s, out.p)
         [] o.k = "invert" -> Agree("inverse", InvPerm(s), out.q) /\ Agree("permutation", s, out.p)
         [] o.k = "iota" -> Agree("iota", <<77>> \o [i \in 1..o.n |-> o.x + i - 1] \o <<77>>, out.a)
         [] o.k = "alg" ->
               LET n == Len(o.a) IN
               /\ Agree("is sorted", B01(IsSortedSeq(o.a)), out.sorted)
               /\ Agree("max element", FirstMax(o.a), out.maxel)
               /\ Agree("lexicographic", B01(LexBefore(o.a, o.b)), out.lex)
               /\ Agree("equal", IF n > Len(o.b) THEN -1 ELSE B01(o.a = SubSeq(o.b, 1, n)), out.eq)
               /\ Agree("clamp", IF o.x < o.lo THEN o.lo ELSE IF o.x > o.hi THEN o.hi ELSE o.x, out.clamp)
               /\ Agree("min max", <<Min({o.x, o.hi}), Max({o.x, o.hi})>>, <<out.min, out.max>>)
               /\ Agree("copy", <<77>> \o o.a \o <<77>>, out.copy) /\ Agree("copy end", n + 1, out.cend)
               /\ Agree("fill", <<77>> \o [i \in 1..n |-> o.x] \o <<77>>, out.fill)
         [] o.k = "enc" -> Agree("code", Weave(Sets(o.x)), Range(out.c))
         [] o.k = "dec" -> Agree("coordinates", [i \in 1..o.d |-> Axis(Range(o.c), o.d, i)], Sets(out.x))
         [] o.k = "fenc" ->
               LET D == Len(o.x) w == Width(o.u, D) IN
               /\ \A i \in 1..D : Holds("float code", Quantised(o.x[i], w, Axis(Range(out.c), D, i)), out)
               /\ \A b \in Range(out.c) : b < D * w
               /\ AgreeSeqNear("float coordinates", [i \in 1..D |-> o.x[i] * 4096], out.x, 1100)
         [] o.k = "msort" -> Holds("same points", SameElements(o.a, out.a), out.a) /\ CodesOk(o, out.a, out.c)
                             /\ Holds("code order", Ascending(Sets(out.c)), out.c)
         [] o.k \in {"mperm", "mscale"} ->
               /\ Agree("input", o.a, out.a) /\ CodesOk(o, out.a, out.c)
               /\ Holds("permutation", IsPerm(out.p, Len(o.a)), out.p)
               /\ IsPerm(out.p, Len(o.a)) /\ Holds("code order", Ascending(Permute(Sets(out.c), out.p)), out.p)
         [] OTHER -> TRUE
TInit == l = 1 /\ st = OInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = OInit
            ELSE OPre(st, e.op) = TRUE /\ Conform(st, e.op, e.out) = TRUE
                 /\ st' = IF e.op.k = "sperm" THEN e.out.p ELSE OApply(st, e.op)
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
