----------------------------- MODULE BinReader -----------------------------
(* A reader of binary data: a byte string, a byte order and a position.  Every *)
(* operation returns a value and moves the position behind what it consumed;   *)
(* it fails if the bytes it needs are not there.                               *)
EXTENDS Leb

Ops == {"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "uleb", "sleb", "asciiz", "next_byte"}
FixedW(o) == CASE o \in {"u8", "s8", "next_byte"} -> 1 [] o \in {"u16", "s16"} -> 2 [] o \in {"u32", "s32"} -> 4 [] o \in {"u64", "s64"} -> 8 [] OTHER -> 0
Signed(o) == o \in {"s8", "s16", "s32", "s64"}

RECURSIVE FindZero(_, _)
FindZero(d, p) == IF p > Len(d) THEN 0 ELSE IF d[p] = 0 THEN p ELSE FindZero(d, p + 1)
Clip(d, p, n) == IF p + n <= Len(d) THEN Slice(d, p, n) ELSE <<>>
RECURSIVE LebEnd(_, _)
LebEnd(d, p) == IF p > Len(d) THEN 0 ELSE IF d[p] < 128 THEN p ELSE LebEnd(d, p + 1)

\* bytes consumed; 0: the operation fails
Needs(d, p, o) ==
  IF p > Len(d) THEN 0
  ELSE IF FixedW(o) > 0 THEN (IF p + FixedW(o) <= Len(d) THEN FixedW(o) ELSE 0)
  ELSE LET e == IF o = "asciiz" THEN FindZero(d, p + 1) ELSE LebEnd(d, p + 1) IN IF e = 0 THEN 0 ELSE e - p
Value(d, p, o, order) ==
  LET b == Slice(d, p, Needs(d, p, o)) IN
  CASE FixedW(o) > 0 -> IntDec(InOrder(b, order), IF Signed(o) THEN "s" ELSE "u")
    [] o = "uleb" -> Uleb(b) [] o = "sleb" -> Sleb(b)
    [] o = "asciiz" -> [s |-> Take(b, Len(b) - 1)]
=============================================================================
