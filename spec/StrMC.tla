------------------------------- MODULE StrMC -------------------------------
EXTENDS Str
Rep(n, c) == [i \in 1..n |-> c]
MCTexts == {<<>>, <<97>>, Rep(22, 97), Rep(23, 97), Rep(22, 97) \o <<98>>}
=============================================================================
