----------------------------- MODULE MeshTrace -----------------------------
EXTENDS Mesh
VARIABLES l, m, vf          \* vf: vertex-face incidence has been requested and not been invalidated
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ m = MInit /\ vf = FALSE
IncidenceOK(n, out) ==
    /\ Holds("incidence recorded", Has(out, "vf"), out)
    /\ Agree("vertices listed", Len(n.v), Len(out.vf))
    /\ \A x \in 0..(Len(n.v) - 1) : Agree("faces of a vertex", Incident(n, x), out.vf[x + 1])
Reports(n, out) == Agree("defect reported", ~Sound(n), out.err > 0)
(* ---- queries ---- *)
Located(o, out) ==
    LET S == Containing(m, o.p) IN
    IF S = {} THEN Agree("outside", -1, out.ret) ELSE Holds("containing face", out.ret + 1 \in S, <<out.ret, S>>)
Tol == IF Quadratic(m.ty) THEN 8 ELSE 2
SortedNum(s) == SortSeq(s, LAMBDA a, b : a < b)
Group(c, o, j) == SubSeq(c, o[j] + 1, o[j + 1])
(* out.c: distances (thousandths), out.o: offsets, out.f: faces; s*: after sorting; out.u: plain variant *)
RayOK(o, out) ==
    LET X == TLCEval([i \in Faces(m) |-> CrossFace(m, o, i)])
        hit == TLCEval(SelectSeq([i \in Faces(m) |-> i], LAMBDA i : X[i] # <<>>))
    IN
    /\ Agree("faces met", MapSeq(LAMBDA i : i - 1, hit), out.f)
    /\ Agree("number of offsets", Len(hit) + 1, Len(out.o)) /\ Agree("first offset", 0, out.o[1])
    /\ Agree("last offset", Len(out.c), out.o[Len(out.o)])
    /\ \A j \in 1..Len(hit) : AgreeSeqNear("crossings", X[hit[j]], SortedNum(Group(out.c, out.o, j)), Tol)
    /\ Agree("plain variant", out.c, out.u)
    /\ Holds("sorted faces", SameBag(out.f, out.sf), out.sf)
    /\ Agree("number of sorted offsets", Len(out.o), Len(out.so)) /\ Agree("first sorted offset", 0, out.so[1])
    /\ \A j \in 1..Len(out.sf) :
          LET i == CHOOSE i \in 1..Len(out.f) : out.f[i] = out.sf[j] IN
          Agree("sorted group", SortedNum(Group(out.c, out.o, i)), Group(out.sc, out.so, j))
    \* along the ray: the faces come in the order of their first stretch inside
    /\ \A j \in 1..(Len(out.sf) - 1) :
          LET a == Pad(X[out.sf[j] + 1]) b == Pad(X[out.sf[j + 1] + 1]) IN
          Holds("order along the ray", a[1] + a[2] <= b[1] + b[2] + 2 * Tol, <<a, b>>)
    \* the stretches inside the faces of a tiling add up to the stretch inside its boundary
    /\ o.tile => AgreeNear("length inside", RegionLength(m, o),
                     SumSeq([j \in 1..Len(out.f) |-> Inside(SortedNum(Group(out.c, out.o, j)))]),
                     Tol * (2 + Len(out.c)))
Answers(o, out, n) ==
    CASE o.k = "vf" -> IncidenceOK(n, out)
      [] o.k = "soup" -> Agree("rebuilt", m, out.n) /\ Agree("soup types", {m.ty}, Range(out.t))
                         /\ Agree("soup vertices", m.v, out.sv) /\ Agree("soup elements", m.f, out.se)
      [] o.k = "get" -> LET i == o.i + 1 P == PtsOf(m, i) IN
                        /\ Agree("face points", P, out.p)
                        /\ Agree("face edges", EdgesOf(m.ty, P), out.e)
                        /\ Agree("face edge ids", EdgesOf(m.ty, m.f[i]), out.ec)
      [] o.k = "loc" -> Located(o, out)
      [] o.k = "ray" -> RayOK(o, out)
      [] OTHER -> TRUE
Step(o, out) ==
    /\ Pre(m, o) = TRUE          \* '= TRUE': evaluate as a value, not as part of the action
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ LET n == out.m IN
       /\ m' = n
       /\ CASE Validates(o) ->
                 LET w == Apply(m, o) IN
                 /\ (ValidatedTo(w, n) /\ Reports(n, out)) = TRUE /\ vf' = FALSE
            [] o.k \in {"sort", "sortv", "sortf"} ->
                 /\ SortedTo(m, n, o) = TRUE
                 /\ vf' = (vf /\ o.k = "sort")
                 /\ (vf /\ o.k = "sort" => IncidenceOK(n, out)) = TRUE
            [] OTHER ->
                 /\ Agree("mesh", Apply(m, o), n)
                 /\ vf' = (o.k = "vf" \/ (vf /\ o.k \in {"soup", "loc", "ray", "get"}))
                 /\ Answers(o, out, n) = TRUE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN m' = MInit /\ vf' = FALSE ELSE Step(e.op, e.out)
TSpec == TInit /\ [][TNext]_<<l, m, vf>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
