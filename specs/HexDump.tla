------------------------------ MODULE HexDump ------------------------------
(* What a canonical hex dump says.  A dump is a sequence of lines:             *)
(*   [k |-> "row", a |-> characters of the address, b |-> pairs of characters, *)
(*    t |-> characters of the text column],                                    *)
(*   [k |-> "*"]   the row above is repeated up to the next row,               *)
(*   [k |-> "len", n |-> number printed].                                      *)
(* Denotes(lines, a, bits, d): the dump is one of bytes d at address a (given  *)
(* as nibbles, most significant first), addresses being printed modulo 2^bits. *)
EXTENDS Bytes

Row == 16
HexVal(c) == CASE c >= 48 /\ c <= 57 -> c - 48 [] c >= 97 /\ c <= 102 -> c - 87 [] c >= 65 /\ c <= 70 -> c - 55 [] OTHER -> -1
RECURSIVE AddNib(_, _)
AddNib(m, n) == IF m = <<>> THEN <<>> ELSE LET v == m[Len(m)] + n IN Append(AddNib(Take(m, Len(m) - 1), v \div 16), v % 16)
Last(m, n) == IF Len(m) >= n THEN Drop(m, Len(m) - n) ELSE Zeros(n - Len(m)) \o m

AddrOk(cs, a, off, bits) == [k \in 1..Len(cs) |-> HexVal(cs[k])] = Last(AddNib(Last(a, bits \div 4), off), bits \div 4)
BytesOk(ps, want) == /\ Len(ps) = Len(want)
                     /\ \A k \in 1..Len(ps) : /\ Len(ps[k]) = 2
                                              /\ \A j \in 1..2 : HexVal(ps[k][j]) >= 0
                                              /\ HexVal(ps[k][1]) * 16 + HexVal(ps[k][2]) = want[k]
Shown(b) == IF b >= 32 /\ b <= 126 THEN b ELSE 46
TextOk(cs, want) == /\ Len(cs) = Row
                    /\ \A k \in 1..Row : cs[k] = IF k <= Len(want) THEN Shown(want[k]) ELSE 32

RowAt(d, p) == Slice(d, p, Min(Row, Len(d) - p))
RECURSIVE Rows(_, _, _, _, _)
\* p: position reached; lines from k on
Rows(ls, k, p, a, d) ==   \* a = [n |-> nibbles, bits |-> bits]
  IF ls[k].k = "len" THEN k = Len(ls) /\ p = Len(d) /\ ls[k].n = Len(d)
  ELSE IF ls[k].k = "*" THEN
    /\ p >= Row
    /\ \E m \in 1..((Len(d) - p) \div Row) :
         /\ \A j \in 0..(m - 1) : RowAt(d, p + j * Row) = Slice(d, p - Row, Row)
         /\ ls[k + 1].k = "row" /\ AddrOk(ls[k + 1].a, a.n, p + m * Row, a.bits)
         /\ Rows(ls, k + 1, p + m * Row, a, d)
  ELSE LET want == RowAt(d, p) IN
    /\ AddrOk(ls[k].a, a.n, p, a.bits) /\ BytesOk(ls[k].b, want) /\ TextOk(ls[k].t, want)
    /\ k < Len(ls) /\ Rows(ls, k + 1, p + Len(want), a, d)
Denotes(ls, a, bits, d) == ls # <<>> /\ ls[Len(ls)].k = "len" /\ Rows(ls, 1, 0, [n |-> a, bits |-> bits], d)

------------------------------------------------------------------------------
(* The dumper: what objutils' Dumper prints, as a machine over the rows; used  *)
(* to show that its elision never loses anything.                              *)
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Print(a, bits, p, row) == [k |-> "row", a |-> [j \in 1..(bits \div 4) |-> HexDigit(Last(AddNib(Last(a, bits \div 4), p), bits \div 4)[j])],
                           b |-> [j \in 1..Len(row) |-> <<HexDigit(row[j] \div 16), HexDigit(row[j] % 16)>>],
                           t |-> [j \in 1..Row |-> IF j <= Len(row) THEN Shown(row[j]) ELSE 32]]
=============================================================================
