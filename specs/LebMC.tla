------------------------------- MODULE LebMC -------------------------------
(* Encodings of numbers grown bit by bit, and all short byte strings decoded.  *)
EXTENDS Leb, TLC, Json
CONSTANTS BYTES, MAXLEN, MAXMAG
VARIABLES b, v
Init == b = <<>> /\ v = [n |-> FALSE, m |-> <<>>]
Next == \/ /\ v.m = <<>> /\ Len(b) < MAXLEN /\ \E x \in BYTES : b' = Append(b, x) /\ v' = v
        \/ /\ b = <<>> /\ Len(v.m) < MAXMAG /\ b' = b
           /\ \E x \in BYTES, s \in BOOLEAN : (v.m # <<>> \/ x # 0) /\ (v.m = <<>> \/ v.n = s) /\ v' = [n |-> s, m |-> Append(v.m, x)]
Spec == Init /\ [][Next]_<<b, v>>
OneNumber == b # <<>> /\ LebLen(b) = Len(b)
Inverse == /\ v.n \/ (LET e == UlebEnc(v) IN LebLen(e) = Len(e) /\ Uleb(e) = v)
           /\ LET e == SlebEnc(v) IN LebLen(e) = Len(e) /\ Sleb(e) = v
\* the encoder's choice is the shortest string with that value
Shortest == OneNumber => /\ Uleb(UlebEnc(Uleb(b))) = Uleb(b) /\ Len(UlebEnc(Uleb(b))) <= Len(b)
                         /\ Sleb(SlebEnc(Sleb(b))) = Sleb(b) /\ Len(SlebEnc(Sleb(b))) <= Len(b)
=============================================================================
