------------------------------ MODULE XsLibMC ------------------------------
(* All files over a small vocabulary of lines. *)
EXTENDS XsLib
CONSTANTS MaxG, MaxN, MaxT
VARIABLES p, file
Rows(g, t) ==
    {[k |-> "row", g |-> g, t |-> t, a |-> 10 * g + t]}
    \cup {[k |-> "row", g |-> g, t |-> t, a |-> 3, f |-> f, nuf |-> 2 * f, tr |-> 40 + g, s |-> 7 * t, lo |-> lo, v |-> [i \in 1..(hi - lo + 1) |-> 9 * i + g]] :
          f \in {t - 1}, lo \in {g}, hi \in {g, p.g} \cap (g..p.g)}
    \cup (IF g > 1 THEN {[k |-> "row", g |-> g, t |-> t, a |-> 1, f |-> 0, nuf |-> 0, tr |-> 8, s |-> 5, lo |-> 1, v |-> [i \in 1..g |-> i + 20]]} ELSE {})
Lines ==
    CASE p.sec = "start" -> {[k |-> "ver"]}
      [] p.sec = "ver" -> {[k |-> "dim", g |-> g, n |-> n] : g \in 1..MaxG, n \in 1..MaxN}
      [] p.sec = "dim" -> {[k |-> "grp"]}
      [] p.sec = "grp" -> IF Len(p.gb) < p.g THEN {[k |-> "gb", v |-> [i \in 1..m |-> 800 - 50 * (Len(p.gb) + i)]] : m \in 1..(p.g - Len(p.gb))} ELSE {[k |-> "chi"]}
      [] p.sec = "chi" -> IF Len(p.chi) < p.g THEN {[k |-> "cv", v |-> [i \in 1..(p.g - Len(p.chi)) |-> 100 + i]]} ELSE {[k |-> "dir"]}
      [] p.sec = "dir" -> {[k |-> "other"]} \cup {[k |-> "nuc", z |-> 92235, m |-> 2350439, nt |-> t] : t \in 1..MaxT}
      [] p.sec = "nuc" -> {[k |-> "tp", v |-> [i \in 1..Len(Cur(p).xs) |-> 1000 + 200 * i]]}
      [] p.sec = "tp" -> {[k |-> "xsd"]}
      [] p.sec = "xsd" -> IF p.rows < p.g * Len(Cur(p).xs) THEN Rows(p.rows \div Len(Cur(p).xs) + 1, (p.rows % Len(Cur(p).xs)) + 1)
                          ELSE {[k |-> "other"], [k |-> "end"], [k |-> "nuc", z |-> 1000 * Len(p.nuc) + 1, m |-> 10078, nt |-> 1]}
      [] OTHER -> {}
Init == p = Start /\ file = <<>>
Next == \E l \in Lines :
    /\ May(p, l)
    /\ l.k = "other" => file[Len(file)].k # "other"
    /\ p' = Line(p, l) /\ file' = Append(file, l)
Spec == Init /\ [][Next]_<<p, file>>
(* reading ends with the stated numbers of groups, nuclides and temperatures, and every row placed *)
Complete == p.sec = "end" =>
    /\ Len(p.gb) = p.g /\ Len(p.chi) = p.g /\ Len(p.nuc) = p.n
    /\ \A i \in 1..p.n : Len(p.nuc[i].tp) = Len(p.nuc[i].xs)
    /\ ReadLib(file) = p
    /\ WellFormed(file)
    /\ \A i \in 1..p.n : Find(p, p.nuc[i].z) = i
(* a row only touches its own group and temperature *)
RowLocal == [][file' # file /\ Last(file').k = "row" =>
    LET l == Last(file') n == Len(p.nuc) IN
    \A t \in 1..Len(p.nuc[n].xs) : t # l.t => p'.nuc[n].xs[t] = p.nuc[n].xs[t]]_<<p, file>>
Emit == p.sec = "end" => PrintT("BEHAVIOUR " \o ToJson(<<[k |-> "file", lines |-> file]>>))
=============================================================================
