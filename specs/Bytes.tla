------------------------------- MODULE Bytes -------------------------------
(* Bytes, byte sequences and numbers as the specifications use them.  TLC's   *)
(* integers are 32 bit, so every number that can be larger is a sequence of   *)
(* bytes (most significant first) or a pair <<hi, lo>> of 16-bit halves.      *)
EXTENDS Integers, Sequences

Byte == 0..255
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Slice(s, off, n) == SubSeq(s, off + 1, off + n)      \* zero based offset
Overlay(s, off, d) == [i \in 1..Len(s) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE s[i]]

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
RECURSIVE SumSeqR(_, _, _)
\* divide and conquer: recursion depth stays logarithmic
SumSeqR(s, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN s[lo]
                      ELSE LET m == (lo + hi) \div 2 IN SumSeqR(s, lo, m) + SumSeqR(s, m + 1, hi)
Sum(s) == SumSeqR(s, 1, Len(s))

RECURSIVE FlattenR(_, _, _)
FlattenR(s, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN s[lo]
                       ELSE LET m == (lo + hi) \div 2 IN FlattenR(s, lo, m) \o FlattenR(s, m + 1, hi)
Flatten(ss) == FlattenR(ss, 1, Len(ss))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

------------------------------------------------------------------------------
(* Unsigned numbers as byte sequences, most significant first.               *)
RECURSIVE StripZeros(_)
StripZeros(m) == IF m = <<>> THEN <<>> ELSE IF m[1] = 0 THEN StripZeros(Tail(m)) ELSE m
PadTo(m, w) == Zeros(w - Len(m)) \o m              \* requires Len(m) <= w
Inv(m) == [i \in 1..Len(m) |-> 255 - m[i]]

RECURSIVE Incr(_)
\* +1 modulo 256^Len
Incr(m) == IF m = <<>> THEN <<>>
           ELSE LET n == Len(m) IN
                IF m[n] < 255 THEN [m EXCEPT ![n] = @ + 1]
                ELSE Append(Incr(Take(m, n - 1)), 0)
Neg2(m) == Incr(Inv(m))                            \* two's complement
IsZero(m) == \A i \in 1..Len(m) : m[i] = 0

RECURSIVE LessEqM(_, _)
LessEqM(a, b) == IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessEqM(Tail(a), Tail(b))

(* bitwise and of two bytes (no bit operators in the standard modules) *)
BitAnd(x, y) ==
  LET b(v, k) == (v \div Pow2(k)) % 2
  IN  (IF b(x,0) = 1 /\ b(y,0) = 1 THEN 1 ELSE 0) + (IF b(x,1) = 1 /\ b(y,1) = 1 THEN 2 ELSE 0)
    + (IF b(x,2) = 1 /\ b(y,2) = 1 THEN 4 ELSE 0) + (IF b(x,3) = 1 /\ b(y,3) = 1 THEN 8 ELSE 0)
    + (IF b(x,4) = 1 /\ b(y,4) = 1 THEN 16 ELSE 0) + (IF b(x,5) = 1 /\ b(y,5) = 1 THEN 32 ELSE 0)
    + (IF b(x,6) = 1 /\ b(y,6) = 1 THEN 64 ELSE 0) + (IF b(x,7) = 1 /\ b(y,7) = 1 THEN 128 ELSE 0)
XorBit(p, q) == IF p = q THEN 0 ELSE 1
BitXor(x, y) ==
  LET b(v, k) == (v \div Pow2(k)) % 2
  IN  XorBit(b(x,0), b(y,0)) + 2 * XorBit(b(x,1), b(y,1)) + 4 * XorBit(b(x,2), b(y,2))
    + 8 * XorBit(b(x,3), b(y,3)) + 16 * XorBit(b(x,4), b(y,4)) + 32 * XorBit(b(x,5), b(y,5))
    + 64 * XorBit(b(x,6), b(y,6)) + 128 * XorBit(b(x,7), b(y,7))
=============================================================================
