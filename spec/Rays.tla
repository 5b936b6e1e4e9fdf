------------------------------- MODULE Rays -------------------------------
(* Modular rays.  Counting x in ray spacings, a module is a box of nx by ny and every ray runs at 45
   degrees between half-integer points of its boundary; positions here are doubled integers.
   Rays 0..nx-1 start on the bottom, from the side the rays run to backwards, then ny on the side. *)
EXTENDS Common
(* start of ray i and where it leaves; right = runs to the right *)
From(nx, ny, right, i) ==
    LET x == IF i < nx THEN 2 * (nx - i) - 1 ELSE 0
        y == IF i < nx THEN 0 ELSE 2 * (i - nx) + 1
    IN <<IF right THEN x ELSE 2 * nx - x, y>>
Run(nx, ny, right, i) ==                                \* doubled number of spacings to the boundary
    LET f == From(nx, ny, right, i) a == IF right THEN 2 * nx - f[1] ELSE f[1] IN MinI(a, 2 * ny - f[2])
To(nx, ny, right, i) ==
    LET f == From(nx, ny, right, i) k == Run(nx, ny, right, i) IN <<IF right THEN f[1] + k ELSE f[1] - k, f[2] + k>>
(* the same point seen from the module the ray enters *)
Enter(nx, ny, right, t) == IF t[2] = 2 * ny THEN <<t[1], 0>> ELSE <<IF right THEN 0 ELSE 2 * nx, t[2]>>
Cont(nx, ny, right, i) ==
    LET e == Enter(nx, ny, right, To(nx, ny, right, i)) IN CHOOSE j \in 0..(nx + ny - 1) : From(nx, ny, right, j) = e
(* number of rays on a side of length w for the direction (p, q) and spacing d: ceil(w q / (|(p, q)| d)) *)
Enough(n, w, q, l2, d) == n * n * l2 * d * d >= w * w * q * q
Count(n, w, q, l2, d) == n >= 1 /\ Enough(n, w, q, l2, d) /\ ~(n > 1 /\ (n - 1) * (n - 1) * l2 * d * d > w * w * q * q) /\ (n > 2 => ~Enough(n - 2, w, q, l2, d))
=============================================================================
