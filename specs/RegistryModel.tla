--------------------------- MODULE RegistryModel ---------------------------
(* The registry of codecs: names (sequences of characters, case does not       *)
(* matter) in the order of registration, each with the codec registered first. *)
EXTENDS Bytes

LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(n) == [k \in 1..Len(n) |-> LowerC(n[k])]
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))

Has(w, n) == \E k \in 1..Len(w) : w[k].n = Lower(n)
At(w, n) == w[CHOOSE k \in 1..Len(w) : w[k].n = Lower(n)]
Refused(w, op) == CASE op.o = "register" -> Has(w, op.n) [] op.o \in {"get", "dumps", "loads"} -> ~Has(w, op.n) [] OTHER -> FALSE
Post(w, op) == IF op.o = "register" /\ ~Has(w, op.n) THEN Append(w, [n |-> Lower(op.n), id |-> op.id]) ELSE w
\* names in ascending order
Sorted(r, w) == /\ Len(r) = Len(w) /\ \A k \in 1..(Len(r) - 1) : Lex(r[k], r[k + 1])
                /\ {r[k] : k \in 1..Len(r)} = {w[k].n : k \in 1..Len(w)}
ResultOk(w, op, r) ==
  CASE op.o = "register" -> r = Lower(op.n)          \* the name the classes were given
    [] op.o \in {"get", "dumps", "loads"} -> r = At(w, op.n).id
    [] op.o = "formats" -> Sorted(r, w)
    [] op.o = "iter" -> r = w
    [] op.o = "new" -> r = TRUE                      \* Registry() is the registry
=============================================================================
