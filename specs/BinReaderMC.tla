---------------------------- MODULE BinReaderMC ----------------------------
(* All short byte strings, read by every operation at every position; every    *)
(* transition is printed and replayed.                                         *)
EXTENDS BinReader, TLC, Json
CONSTANTS ALPHABET, MAXLEN
VARIABLES d, p, order
vars == <<d, p, order>>
Strs == UNION {[1..k -> ALPHABET] : k \in 0..MAXLEN} \cup [1..9 -> {0, 129}]
Init == d \in Strs /\ p = 0 /\ order \in {"le", "be"}
Do(o) == LET n == Needs(d, p, o) IN
  /\ d' = d /\ order' = order /\ p' = IF n = 0 THEN p ELSE p + n
  /\ PrintT(ToJson([d |-> d, o |-> order, p |-> p, op |-> o, ok |-> n > 0, p2 |-> p + n, r |-> IF n > 0 THEN Value(d, p, o, order) ELSE [s |-> <<>>]]))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Inside == p <= Len(d)
Progress == \A o \in Ops : Needs(d, p, o) = 0 \/ (Needs(d, p, o) >= 1 /\ p + Needs(d, p, o) <= Len(d))
\* both byte orders agree on palindromes, and a signed value is the unsigned one modulo 2^n
Signs == \A w \in {1, 2} : LET u == IF w = 1 THEN "u8" ELSE "u16"  s == IF w = 1 THEN "s8" ELSE "s16" IN
  Needs(d, p, u) > 0 => LET x == Value(d, p, u, order)  y == Value(d, p, s, order) IN IntEnc(x, w) = IntEnc(y, w)
=============================================================================
