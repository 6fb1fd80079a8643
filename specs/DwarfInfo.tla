------------------------------ MODULE DwarfInfo -----------------------------
(* What .debug_info and .debug_abbrev say (32-bit DWARF, versions 2 to 5), and *)
(* how location expressions are taken apart; functions of their bytes.         *)
(* Values: [n, m] numbers, [b] blocks, [s] strings.  Offsets count from 0.     *)
EXTENDS Leb, DwarfNames

U(m) == [n |-> FALSE, m |-> m]
NatOf(m) == CASE Len(m) = 0 -> 0 [] Len(m) = 1 -> m[1] [] Len(m) = 2 -> 256 * m[1] + m[2] [] Len(m) = 3 -> 65536 * m[1] + 256 * m[2] + m[3] [] OTHER -> 16777216
RECURSIVE AddCarry(_, _, _)
AddCarry(v, k, c) == IF k = 0 \/ c = 0 THEN v ELSE LET t == v[k] + c IN AddCarry([v EXCEPT ![k] = t % 256], k - 1, t \div 256)
AddM(m, n) == StripZeros(AddCarry(PadTo(m, 10), 10, n))        \* n < 2^23

-----------------------------------------------------------------------------
(* Elementary encodings: [v, p] value and the offset behind it; p = -1 if the  *)
(* bytes end before.                                                           *)
Bad == [v |-> U(<<>>), p |-> -1]
Fixed(b, p, w, k, big) ==
  IF p + w > Len(b) THEN Bad
  ELSE LET q == Slice(b, p, w) IN [v |-> IntDec(IF big THEN q ELSE Rev(q), k), p |-> p + w]
RECURSIVE LebN(_, _)
LebN(b, p) == IF p >= Len(b) THEN -1 ELSE IF b[p + 1] < 128 THEN 1 ELSE LET r == LebN(b, p + 1) IN IF r = -1 THEN -1 ELSE r + 1
UlebAt(b, p) == LET n == LebN(b, p) IN
  IF n = -1 THEN Bad ELSE IF n = 1 THEN [v |-> U(StripZeros(<<b[p + 1]>>)), p |-> p + 1] ELSE [v |-> Uleb(Slice(b, p, n)), p |-> p + n]
SlebAt(b, p) == LET n == LebN(b, p) IN IF n = -1 THEN Bad ELSE [v |-> Sleb(Slice(b, p, n)), p |-> p + n]
RECURSIVE NulAt(_, _)
NulAt(b, p) == IF p >= Len(b) THEN -1 ELSE IF b[p + 1] = 0 THEN p ELSE NulAt(b, p + 1)
StrAt(b, p) == LET e == NulAt(b, p) IN IF e = -1 THEN Bad ELSE [v |-> [s |-> Slice(b, p, e - p)], p |-> e + 1]
BlockOf(b, h) == \* h: the length read before
  IF h.p = -1 \/ h.p + NatOf(h.v.m) > Len(b) THEN Bad ELSE [v |-> [b |-> Slice(b, h.p, NatOf(h.v.m))], p |-> h.p + NatOf(h.v.m)]
\* an offset into a string table
Strp(b, p, tab, big) == LET o == Fixed(b, p, 4, "u", big) IN
  IF o.p = -1 THEN Bad ELSE LET s == StrAt(tab, NatOf(o.v.m)) IN IF s.p = -1 THEN Bad ELSE [v |-> s.v, p |-> o.p]

RECURSIVE Strings(_, _)
\* strings up to an empty one
Strings(b, p) == LET s == StrAt(b, p) IN
  IF s.p = -1 THEN [v |-> <<>>, p |-> -1] ELSE IF s.v.s = <<>> THEN [v |-> <<>>, p |-> s.p]
  ELSE LET r == Strings(b, s.p) IN [v |-> <<s.v.s>> \o r.v, p |-> r.p]
RECURSIVE Files(_, _)
\* file names with directory, modification time and length, up to an empty one
Files(b, p) == LET s == StrAt(b, p) IN
  IF s.p = -1 THEN [v |-> <<>>, p |-> -1] ELSE IF s.v.s = <<>> THEN [v |-> <<>>, p |-> s.p]
  ELSE LET d == UlebAt(b, s.p)  t == IF d.p = -1 THEN Bad ELSE UlebAt(b, d.p)  l == IF t.p = -1 THEN Bad ELSE UlebAt(b, t.p) IN
       IF l.p = -1 THEN [v |-> <<>>, p |-> -1]
       ELSE LET r == Files(b, l.p) IN [v |-> <<[name |-> s.v.s, dir |-> d.v, time |-> t.v, len |-> l.v]>> \o r.v, p |-> r.p]

-----------------------------------------------------------------------------
(* Location expressions: sequences of [o, a, b]: name, numbers, block (if any).       *)
Operand(k, b, p, asize, big, last) ==
  CASE k = "addr" -> Fixed(b, p, asize, "u", big)
    [] k = "u1" -> Fixed(b, p, 1, "u", big) [] k = "s1" -> Fixed(b, p, 1, "s", big) [] k = "u2" -> Fixed(b, p, 2, "u", big) [] k = "s2" -> Fixed(b, p, 2, "s", big)
    [] k = "u4" -> Fixed(b, p, 4, "u", big) [] k = "s4" -> Fixed(b, p, 4, "s", big) [] k = "u8" -> Fixed(b, p, 8, "u", big) [] k = "s8" -> Fixed(b, p, 8, "s", big)
    [] k = "uleb" -> UlebAt(b, p) [] k = "sleb" -> SlebAt(b, p)
    [] k = "block" -> BlockOf(b, [v |-> last, p |-> p])
RECURSIVE Operands(_, _, _, _, _, _, _)
Operands(ks, b, p, asize, big, a, blk) ==
  IF ks = <<>> THEN [a |-> a, b |-> blk, p |-> p]
  ELSE LET r == Operand(ks[1], b, p, asize, big, IF a = <<>> THEN U(<<>>) ELSE a[Len(a)]) IN
       IF r.p = -1 THEN [a |-> a, b |-> blk, p |-> -1]
       ELSE IF ks[1] = "block" THEN Operands(Tail(ks), b, r.p, asize, big, a, <<r.v.b>>)
       ELSE Operands(Tail(ks), b, r.p, asize, big, Append(a, r.v), blk)
RECURSIVE ExprAt(_, _, _, _)
\* [ok |-> "yes", "unknown" or "short", q |-> operations]
ExprAt(b, p, asize, big) ==
  IF p >= Len(b) THEN [ok |-> "yes", q |-> <<>>]
  ELSE LET op == OpTable(b[p + 1]) IN
    IF op.name = "" THEN [ok |-> "unknown", q |-> <<>>]
    ELSE LET r == Operands(op.args, b, p + 1, asize, big, <<>>, <<>>) IN
      IF r.p = -1 THEN [ok |-> "short", q |-> <<>>]
      ELSE LET t == ExprAt(b, r.p, asize, big) IN [ok |-> t.ok, q |-> <<[o |-> op.name, a |-> r.a, b |-> r.b]>> \o t.q]
Expr(b, asize, big) == ExprAt(b, 0, asize, big)

-----------------------------------------------------------------------------
(* Abbreviations.                                                              *)
ImplicitConst == 33
RECURSIVE SpecsAt(_, _)
SpecsAt(ab, p) ==
  LET a == UlebAt(ab, p)  f == UlebAt(ab, a.p)
      an == NatOf(a.v.m)  fn == NatOf(f.v.m)
  IN IF an = 0 /\ fn = 0 THEN [q |-> <<>>, p |-> f.p]
     ELSE LET k == IF fn = ImplicitConst THEN SlebAt(ab, f.p) ELSE [v |-> U(<<>>), p |-> f.p]
              r == SpecsAt(ab, k.p)
          IN [q |-> <<[at |-> an, form |-> fn, const |-> k.v]>> \o r.q, p |-> r.p]
RECURSIVE DeclsAt(_, _)
DeclsAt(ab, p) ==
  LET c == UlebAt(ab, p) IN
  IF c.v.m = <<>> THEN <<>>
  ELSE LET t == UlebAt(ab, c.p)  s == SpecsAt(ab, t.p + 1) IN
       <<[code |-> NatOf(c.v.m), tag |-> NatOf(t.v.m), kids |-> ab[t.p + 1] = 1, attrs |-> s.q]>> \o DeclsAt(ab, s.p)

RefForms == {17, 18, 19, 20, 21}
Known == {1} \cup (3..21) \cup {23, 24, 25, 31, 32, 33}
\* cx: [info, ab, str, lstr, big, asize (of the unit; also in its expressions), start (of the unit)]
Value(cx, f, const, p) ==
  LET b == cx.info IN
  CASE f = 1 -> Fixed(b, p, cx.asize, "u", cx.big)
    [] f = 3 -> BlockOf(b, Fixed(b, p, 2, "u", cx.big)) [] f = 4 -> BlockOf(b, Fixed(b, p, 4, "u", cx.big)) [] f \in {9, 24} -> BlockOf(b, UlebAt(b, p))
    [] f = 10 -> BlockOf(b, Fixed(b, p, 1, "u", cx.big))
    [] f \in {5, 18} -> Fixed(b, p, 2, "u", cx.big) [] f \in {6, 16, 19, 23} -> Fixed(b, p, 4, "u", cx.big) [] f \in {7, 20, 32} -> Fixed(b, p, 8, "u", cx.big)
    [] f \in {11, 12, 17} -> Fixed(b, p, 1, "u", cx.big)
    [] f = 8 -> StrAt(b, p) [] f = 13 -> SlebAt(b, p) [] f \in {15, 21} -> UlebAt(b, p)
    [] f = 14 -> Strp(b, p, cx.str, cx.big) [] f = 31 -> Strp(b, p, cx.lstr, cx.big)
    [] f = 25 -> [v |-> U(<<1>>), p |-> p] [] f = 33 -> [v |-> const, p |-> p]
RECURSIVE AttrsAt(_, _, _)
AttrsAt(cx, as, p) ==
  IF as = <<>> THEN [q |-> <<>>, p |-> p]
  ELSE LET a == as[1]
           r == Value(cx, a.form, a.const, p)
           v == IF a.form \in RefForms THEN U(AddM(r.v.m, cx.start)) ELSE r.v
           t == AttrsAt(cx, Tail(as), r.p)
       IN [q |-> <<[at |-> a.at, form |-> a.form, v |-> v]>> \o t.q, p |-> t.p]
RECURSIVE DiesAt(_, _, _, _, _)
\* entries from p to end in order of their offsets, with their depths
DiesAt(cx, decls, p, end, depth) ==
  IF p >= end THEN <<>>
  ELSE LET c == UlebAt(cx.info, p) IN
    IF c.v.m = <<>> THEN DiesAt(cx, decls, c.p, end, Max(0, depth - 1))
    ELSE LET d == decls[CHOOSE k \in 1..Len(decls) : decls[k].code = NatOf(c.v.m)]
             a == AttrsAt(cx, d.attrs, c.p)
         IN <<[off |-> p, depth |-> depth, tag |-> d.tag, attrs |-> a.q, asize |-> cx.asize]>> \o DiesAt(cx, decls, a.p, end, IF d.kids THEN depth + 1 ELSE depth)

Supported(decls) == \A k \in 1..Len(decls) : \A j \in 1..Len(decls[k].attrs) : decls[k].attrs[j].form \in Known \ {22}
Unit(c, p) ==
  LET len == Fixed(c.info, p, 4, "u", c.big)
      ver == NatOf(Fixed(c.info, p + 4, 2, "u", c.big).v.m)
      five == ver = 5
      aoff == Fixed(c.info, p + (IF five THEN 8 ELSE 6), 4, "u", c.big)
      asize == c.info[p + (IF five THEN 8 ELSE 11)]
      utype == IF five THEN c.info[p + 7] ELSE 1
      decls == DeclsAt(c.ab, NatOf(aoff.v.m))
      cx == [info |-> c.info, str |-> c.str, lstr |-> c.lstr, big |-> c.big, asize |-> asize, start |-> p]
      end == p + 4 + NatOf(len.v.m)
      ok == ver \in 2..5 /\ utype \in {1, 3} /\ Supported(decls)
  IN [end |-> end, ok |-> ok, dies |-> IF ok THEN DiesAt(cx, decls, p + (IF five THEN 12 ELSE 11), end, 0) ELSE <<>>]
RECURSIVE UnitsAt(_, _)
UnitsAt(c, p) == IF p >= Len(c.info) THEN <<>> ELSE LET u == Unit(c, p) IN <<u>> \o UnitsAt(c, u.end)
Units(c) == UnitsAt(c, 0)
=============================================================================
