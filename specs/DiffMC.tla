------------------------------- MODULE DiffMC -------------------------------
(* All pairs of short strings, grown byte by byte: the scan produces an edit   *)
(* script, and it is the only one (bounded check over all scripts).            *)
EXTENDS Diff, TLC, Json

CONSTANTS ALPHABET, MAXLEN, EXTRA
VARIABLES s, u
vars == <<s, u>>
Init == s = <<>> /\ u = <<>> /\ PrintT(ToJson([a |-> s, b |-> u, d |-> Diff(s, u)]))
Grow(x, y) == /\ s' = x /\ u' = y /\ PrintT(ToJson([a |-> x, b |-> y, d |-> Diff(x, y)]))
\* every pair is reached on one path: first both strings grow, then one of them
Next == \/ /\ Len(s) = Len(u) /\ Len(s) < MAXLEN /\ \E x, y \in ALPHABET : Grow(Append(s, x), Append(u, y))
        \/ /\ Len(u) <= Len(s) /\ Len(s) < Len(u) + EXTRA /\ Len(s) < MAXLEN /\ \E x \in ALPHABET : Grow(Append(s, x), u)
        \/ /\ Len(s) <= Len(u) /\ Len(u) < Len(s) + EXTRA /\ Len(u) < MAXLEN /\ \E y \in ALPHABET : Grow(s, Append(u, y))
Spec == Init /\ [][Next]_vars
Correct == IsDiff(s, u, Diff(s, u))
\* no other script qualifies
Strs(n) == UNION {[1..k -> ALPHABET] : k \in 0..n}
Unique == Len(s) + Len(u) <= 4 =>
  \A n \in 0..2 :
    \A ds \in [1..n -> [t : {"M", "A", "D"}, off : 0..2, a : Strs(2), b : Strs(2)]] : IsDiff(s, u, ds) => ds = Diff(s, u)
=============================================================================
