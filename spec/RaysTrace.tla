----------------------------- MODULE RaysTrace -----------------------------
EXTENDS Rays
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* o: box x, y, w, h; direction p (may be negative), q; spacing d.  out: thousandths of a unit *)
Pos(o, n, t) == <<1000 * o.x + (t[1] * o.w * 500) \div n[1], 1000 * o.y + (t[2] * o.h * 500) \div n[2]>>
Conform(o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ LET l2 == o.p * o.p + o.q * o.q n == out.n r == o.p > 0 tol == o.tol IN
       /\ Holds("rays on the bottom", Count(n[1], o.w, o.q, l2, o.d), n)
       /\ Holds("rays on the side", Count(n[2], o.h, Abs(o.p), l2, o.d), n)
       /\ Agree("number of rays", n[1] + n[2], out.total)
       /\ AgreeSeqNear("spacing", <<(1000 * o.w) \div n[1], (1000 * o.h) \div n[2]>>, out.s, tol)
       \* direction: unit length, along one spacing in x and one in y (ten-thousandths)
       /\ Holds("unit direction", Near(out.d[1] * out.d[1] + out.d[2] * out.d[2], 100000000, 60000), out.d)
       /\ Holds("quadrant", (out.d[1] > 0) = r /\ out.d[2] > 0, out.d)
       /\ LET a == o.h * n[1] b == o.w * n[2] IN
          Holds("angle", Abs(Abs(out.d[1]) * a - out.d[2] * b) <= 2 * (a + b), out.d)
       /\ Len(out.o) = n[1] + n[2]
       /\ \A i \in 1..(n[1] + n[2]) :
            /\ AgreeSeqNear("start", Pos(o, n, From(n[1], n[2], r, i - 1)), out.o[i], tol)
            /\ AgreeSeqNear("direction of the ray", out.d, out.rd[i], 1)
            \* leaving the module it is where the ray continuing it in the next module starts
            /\ LET t == To(n[1], n[2], r, i - 1) j == Cont(n[1], n[2], r, i - 1)
                   up == t[2] = 2 * n[2]
                   sh == <<IF up THEN 0 ELSE IF r THEN 1000 * o.w ELSE -1000 * o.w, IF up THEN 1000 * o.h ELSE 0>>
               IN AgreeSeqNear("continues", <<out.o[j + 1][1] + sh[1], out.o[j + 1][2] + sh[2]>>, out.x[i], 3 * tol)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ st' = st
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN TRUE ELSE Conform(e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
