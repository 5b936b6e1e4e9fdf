------------------------------- MODULE RaysMC -------------------------------
(* All ray counts up to N in both quadrants: following rays from module to module. *)
EXTENDS Rays
CONSTANTS N, W
VARIABLES nx, ny, right, i, first, steps
Init == nx \in 1..N /\ ny \in 1..N /\ right \in BOOLEAN /\ i = 0 /\ first = 0 /\ steps = 0
Next == \/ steps = 0 /\ first < nx + ny - 1 /\ first' = first + 1 /\ i' = first + 1 /\ UNCHANGED <<nx, ny, right, steps>>
        \/ (steps = 0 \/ i # first) /\ steps <= 2 * N /\ i' = Cont(nx, ny, right, i) /\ steps' = steps + 1 /\ UNCHANGED <<nx, ny, right, first>>
Spec == Init /\ [][Next]_<<nx, ny, right, i, first, steps>>
Idx == 0..(nx + ny - 1)
Cyclic == /\ i \in Idx
          /\ steps <= nx + ny                            \* back at the start by then at the latest
Laws == steps = 0 =>
    /\ {Cont(nx, ny, right, j) : j \in Idx} = Idx        \* nothing lost, nothing doubled
    /\ \A j \in Idx : Run(nx, ny, right, j) > 0          \* every ray crosses the module
    /\ SumSeq([j \in 1..(nx + ny) |-> Run(nx, ny, right, j - 1)]) = 2 * nx * ny      \* together they cover it
    /\ \A j \in Idx : LET f == From(nx, ny, right, j) t == To(nx, ny, right, j) IN
         /\ f[2] = 0 \/ f[1] = (IF right THEN 0 ELSE 2 * nx)
         /\ From(nx, ny, ~right, j) = <<2 * nx - f[1], f[2]>>
         /\ t[2] <= 2 * ny /\ t[1] >= 0 /\ t[1] <= 2 * nx
(* counts chosen for a spacing d keep neighbouring rays at most d apart: (nx/w)^2 + (ny/h)^2 >= 1/d^2 *)
Fine == steps = 0 /\ first = 0 =>
    \A w \in 1..W, h \in 1..W, p \in 1..3, q \in 1..3, d \in 1..3 :
       Count(nx, w, q, p * p + q * q, d) /\ Count(ny, h, p, p * p + q * q, d) =>
       d * d * (nx * nx * h * h + ny * ny * w * w) >= w * w * h * h
=============================================================================
