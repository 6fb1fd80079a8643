-------------------------------- MODULE Leb --------------------------------
(* LEB128 numbers: groups of seven bits, least significant first, the top bit  *)
(* of every byte but the last set.  Values are [n |-> negative, m |-> magnitude]*)
EXTENDS Numbers

LBit(v, k) == (v \div Pow2(k)) % 2
LowBits(v, n) == [k \in 1..n |-> LBit(v, k - 1)]               \* least significant first
\* bits, least significant first -> magnitude bytes, most significant first
FromBits(bs) ==
  LET n == (Len(bs) + 7) \div 8
      p == bs \o Zeros(8 * n - Len(bs))
      byte(k) == p[8*k-7] + 2 * p[8*k-6] + 4 * p[8*k-5] + 8 * p[8*k-4] + 16 * p[8*k-3] + 32 * p[8*k-2] + 64 * p[8*k-1] + 128 * p[8*k]
  IN StripZeros(Rev([k \in 1..n |-> byte(k)]))
InvBits(bs) == [k \in 1..Len(bs) |-> 1 - bs[k]]

RECURSIVE LebLen(_)
LebLen(b) == IF b = <<>> THEN 0                                 \* unterminated
             ELSE IF b[1] < 128 THEN 1 ELSE LET r == LebLen(Tail(b)) IN IF r = 0 THEN 0 ELSE r + 1
Groups(b) == Flatten([k \in 1..Len(b) |-> LowBits(b[k] % 128, 7)])
Uleb(b) == [n |-> FALSE, m |-> FromBits(Groups(b))]             \* b: exactly one number
Sleb(b) == LET g == Groups(b) IN
           IF (b[Len(b)] \div 64) % 2 = 0 THEN [n |-> FALSE, m |-> FromBits(g)]
           ELSE [n |-> TRUE, m |-> StripZeros(Incr(<<0>> \o PadTo(FromBits(InvBits(g)), Len(b))))]      \* -x = ~x + 1

(* Encoding: the shortest one.                                                 *)
BitsOfMag(m) == Flatten([k \in 1..Len(m) |-> LowBits(m[Len(m) + 1 - k], 8)])
RECURSIVE Strip1(_, _)
Strip1(bs, x) == IF bs # <<>> /\ bs[Len(bs)] = x THEN Strip1(Take(bs, Len(bs) - 1), x) ELSE bs
Group7(bs, fill) ==
  LET n == Max(1, (Len(bs) + 6) \div 7)
      p == bs \o Rep(fill, 7 * n - Len(bs))
      v(k) == p[7*k-6] + 2 * p[7*k-5] + 4 * p[7*k-4] + 8 * p[7*k-3] + 16 * p[7*k-2] + 32 * p[7*k-1] + 64 * p[7*k]
  IN [k \in 1..n |-> IF k < n THEN v(k) + 128 ELSE v(k)]
UlebEnc(v) == Group7(Strip1(BitsOfMag(v.m), 0), 0)
SlebEnc(v) == IF v.n THEN LET t == Neg2(<<0>> \o v.m) IN Group7(Append(Strip1(BitsOfMag(t), 1), 1), 1)
              ELSE Group7(Append(Strip1(BitsOfMag(v.m), 0), 0), 0)
=============================================================================
