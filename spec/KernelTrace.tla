----------------------------- MODULE KernelTrace -----------------------------
EXTENDS Kernel
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Seen(e) == Ent(AtomSet(e.at), AtomSet(e.gr))
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : CountIn(a, x) = CountIn(b, x)
Short(e) == [i \in 1..Len(e) |-> <<e[i].gr, Cardinality(e[i].at), {<<a[1], a[2]>> : a \in e[i].at}>>]
Shown(s, out) ==
    LET a == TLCEval(MapSeq(LAMBDA e : Seen(e), out.e)) IN
    /\ Holds("entities and their groups", SameBag(s.e, a), <<Short(s.e), "BUT", Short(a)>>)
    /\ Holds("areas", \A i \in 1..Len(out.e) : out.e[i].ok = 1, out.e)
(* colours: entities of a material in the hierarchy show it *)
ColourOf(out, g) == {out.e[i].col : i \in {i \in 1..Len(out.e) : g \in AtomSet(out.e[i].gr)}}
Coloured(hier, out) ==
    /\ \A i \in 1..Len(hier) : Holds("one colour per material", Cardinality(ColourOf(out, Materials \o hier[i])) <= 1 /\ "0.0.255.0" \notin ColourOf(out, Materials \o hier[i]), out.e)
    /\ \A i, j \in 1..Len(hier) : hier[i] # hier[j] => ColourOf(out, Materials \o hier[i]) \cap ColourOf(out, Materials \o hier[j]) = {}
WithCol(e) == [at |-> AtomSet(e.at), gr |-> AtomSet(e.gr), col |-> e.col]
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ IF o.k = "dim" \/ Has(out, "kernel") THEN TRUE ELSE
       LET n == TLCEval(Apply(s, o)) IN
       /\ Shown(n, out)
       /\ CASE o.k \in {"frag", "isect", "cut"} ->
                  /\ Agree("refused", Refused(s, o), out.err > 0)
                  /\ (o.k # "cut" /\ o.hier # <<>> /\ ~Refused(s, o)) => Coloured(o.hier, out)
            [] o.k = "io" -> Agree("errors", 0, out.err) /\ Holds("colours", SameBag(MapSeq(LAMBDA e : WithCol(e), out.pre), MapSeq(LAMBDA e : WithCol(e), out.e)), out)
            [] o.k = "pin" -> Agree("entities made", Len(o.r), out.n)
                             /\ \A i \in 1..Len(o.r) : Holds("pin colour", \E j \in 1..Len(out.e) :
                                    Seen(out.e[j]) = Ent(Rings(o.x, o.y, o.r)[i], {Materials \o o.m[i]}) /\ out.e[j].col # "0.0.255.0", out.e)
            [] o.k = "mats" -> Agree("materials", MatNames(s), out.m)
            [] OTHER -> Agree("errors", 0, out.err)
TInit == l = 1 /\ st = InitK
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = InitK
            ELSE Conform(st, e.op, e.out) = TRUE /\ (IF Has(e.out, "kernel") THEN st' = st ELSE st' = Apply(st, e.op))
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
