----------------------------- MODULE RegistryMC -----------------------------
(* All histories of registrations and look-ups up to a length.                 *)
EXTENDS RegistryModel, TLC, Json
CONSTANTS MAXLEN
VARIABLES h, w
vars == <<h, w>>
x == <<120>>  X == <<88>>  xy == <<120, 121>>
Op == [o : {"register"}, n : {x, X, xy}, id : {1, 2}] \cup [o : {"get", "dumps", "loads"}, n : {x, X, xy}] \cup [o : {"formats", "iter", "new"}]
Init == h = <<>> /\ w = <<>>
Next == \E op \in Op : /\ Len(h) < MAXLEN /\ (op.o = "register" => op.id = 1 + (Len(h) % 2))
                       /\ h' = Append(h, op) /\ w' = Post(w, op)
                       /\ Len(h') < MAXLEN \/ PrintT(ToJson([ops |-> h']))
Spec == Init /\ [][Next]_vars
\* nothing is ever registered twice, replaced or lost
NoDuplicates == \A i, j \in 1..Len(w) : w[i].n = w[j].n => i = j
Stable == [][Len(w') >= Len(w) /\ Take(w', Len(w)) = w]_vars
FirstWins == \A k \in 1..Len(w) : \E j \in 1..Len(h) : /\ h[j].o = "register" /\ Lower(h[j].n) = w[k].n /\ h[j].id = w[k].id
                                                       /\ \A i \in 1..(j - 1) : h[i].o # "register" \/ Lower(h[i].n) # w[k].n
=============================================================================
