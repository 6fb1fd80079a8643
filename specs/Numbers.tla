------------------------------ MODULE Numbers ------------------------------
(* The numeric data types of the typed accessors: layout in memory of signed  *)
(* and unsigned integers of 1, 2, 4 and 8 bytes and of IEEE-754 single and    *)
(* double precision numbers, in both byte orders; and the text encodings.     *)
EXTENDS Bytes

DT(k, w, o) == [k |-> k, w |-> w, o |-> o]
DTypes == [
  byte        |-> DT("u", 1, "le"),
  uint8_le    |-> DT("u", 1, "le"), uint8_be  |-> DT("u", 1, "be"), int8_le  |-> DT("s", 1, "le"), int8_be  |-> DT("s", 1, "be"),
  uint16_le   |-> DT("u", 2, "le"), uint16_be |-> DT("u", 2, "be"), int16_le |-> DT("s", 2, "le"), int16_be |-> DT("s", 2, "be"),
  uint32_le   |-> DT("u", 4, "le"), uint32_be |-> DT("u", 4, "be"), int32_le |-> DT("s", 4, "le"), int32_be |-> DT("s", 4, "be"),
  uint64_le   |-> DT("u", 8, "le"), uint64_be |-> DT("u", 8, "be"), int64_le |-> DT("s", 8, "le"), int64_be |-> DT("s", 8, "be"),
  float32_le  |-> DT("f", 4, "le"), float32_be |-> DT("f", 4, "be"),
  float64_le  |-> DT("f", 8, "le"), float64_be |-> DT("f", 8, "be")]

KnownDType(n) == n \in DOMAIN DTypes
InOrder(m, o) == IF o = "be" THEN m ELSE Rev(m)    \* BE bytes <-> memory order

------------------------------------------------------------------------------
(* Integers: a value is [n |-> TRUE iff negative, m |-> magnitude, BE bytes,  *)
(* no leading zero].                                                          *)
IntFits(v, k, w) ==
  /\ Len(v.m) <= w
  /\ IF v.n THEN k = "s" /\ LessEqM(PadTo(v.m, w), <<128>> \o Zeros(w - 1))
     ELSE k = "u" \/ Len(v.m) < w \/ v.m[1] < 128
IntEnc(v, w) == LET p == PadTo(v.m, w) IN IF v.n THEN Neg2(p) ELSE p            \* BE
IntDec(b, k) == IF k = "s" /\ b[1] >= 128 THEN [n |-> TRUE, m |-> StripZeros(Neg2(b))]
                ELSE [n |-> FALSE, m |-> StripZeros(b)]

------------------------------------------------------------------------------
(* Floating point.  A Python float is given by its 8 bytes (IEEE double, BE). *)
F64Exp(b) == (b[1] % 128) * 16 + b[2] \div 16
F64Hi(b)  == (b[2] % 16) * 524288 + b[3] * 2048 + b[4] * 8 + b[5] \div 32        \* upper 23 mantissa bits
F64Lo(b)  == (b[5] % 32) * 16777216 + b[6] * 65536 + b[7] * 256 + b[8]           \* lower 29 mantissa bits
F64IsNaN(b) == F64Exp(b) = 2047 /\ (F64Hi(b) # 0 \/ F64Lo(b) # 0)
F32Bytes(s, e, m) == << s * 128 + e \div 2, (e % 2) * 128 + m \div 65536, (m \div 256) % 256, m % 256 >>
Half29 == 268435456          \* 2^28
P23 == 8388608

(* Round to nearest, ties to even: [ok |-> FALSE] on overflow, else the bytes. *)
F64toF32(b) ==
  LET s == b[1] \div 128  ex == F64Exp(b)  hi == F64Hi(b)  lo == F64Lo(b)
      up(m, rest, half, sticky) == IF rest > half \/ (rest = half /\ (sticky \/ m % 2 = 1)) THEN m + 1 ELSE m
  IN CASE ex = 2047 /\ hi = 0 /\ lo = 0 -> [ok |-> TRUE, b |-> F32Bytes(s, 255, 0)]
       [] ex = 2047 -> [ok |-> TRUE, b |-> F32Bytes(s, 255, 4194304)]            \* some NaN
       [] ex >= 897 /\ ex < 2047 ->                                              \* normal single
            LET m == up(hi, lo, Half29, FALSE)
                e2 == IF m = P23 THEN ex - 896 + 1 ELSE ex - 896
            IN IF e2 >= 255 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, b |-> F32Bytes(s, e2, m % P23)]
       [] ex < 897 /\ ex >= 872 ->                                               \* subnormal single (shift 1..25)
            LET sh == 897 - ex
                full == P23 + hi                      \* 24 bits, below it the 29 bits of lo
                q == IF sh >= 25 THEN 0 ELSE full \div Pow2(sh)
                rem == IF sh >= 25 THEN full ELSE full % Pow2(sh)
                half == Pow2(sh - 1)
                m == up(q, rem, half, lo # 0)
                \* rem = half with lo # 0 is above the tie; up() handles sticky
            IN [ok |-> TRUE, b |-> F32Bytes(s, IF m = P23 THEN 1 ELSE 0, m % P23)]
       [] OTHER -> [ok |-> TRUE, b |-> F32Bytes(s, 0, 0)]

F32toF64(b) ==
  LET s == b[1] \div 128  e == (b[1] % 128) * 2 + b[2] \div 128
      m == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
      pack(ex, mm) ==    \* mm: 23 bits of mantissa
        << s * 128 + ex \div 16, (ex % 16) * 16 + mm \div 524288, (mm \div 2048) % 256, (mm \div 8) % 256, (mm % 8) * 32, 0, 0, 0 >>
      RECURSIVE norm(_, _)
      norm(mm, k) == IF mm >= P23 THEN pack(897 - k, mm - P23) ELSE norm(mm * 2, k + 1)
  IN CASE e = 255 -> pack(2047, m)
       [] e = 0 /\ m = 0 -> pack(0, 0)
       [] e = 0 -> norm(m, 0)
       [] OTHER -> pack(e + 896, m)

F32IsNaN(b) == ((b[1] % 128) * 2 + b[2] \div 128) = 255 /\ ((b[2] % 128) # 0 \/ b[3] # 0 \/ b[4] # 0)

------------------------------------------------------------------------------
(* One value <-> memory bytes.  Values: integers as above; floats f |-> bytes *)
(* of the double, every NaN being written 7FF8000000000000.                    *)
QNaN == <<127, 248, 0, 0, 0, 0, 0, 0>>
EncodeOk(t, v) ==
  IF t.k = "f" THEN "f" \in DOMAIN v /\ (t.w = 8 \/ F64toF32(v.f).ok)
  ELSE "m" \in DOMAIN v /\ IntFits(v, t.k, t.w)
Encode(t, v) ==
  InOrder(IF t.k = "f" THEN (IF t.w = 8 THEN v.f ELSE F64toF32(v.f).b) ELSE IntEnc(v, t.w), t.o)
Decode(t, b) ==
  LET be == InOrder(b, t.o) IN
  IF t.k # "f" THEN IntDec(be, t.k)
  ELSE LET d == IF t.w = 8 THEN be ELSE F32toF64(be) IN [f |-> IF F64IsNaN(d) THEN QNaN ELSE d]

------------------------------------------------------------------------------
(* Text: sequences of code points.                                            *)
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> << 192 + c \div 64, 128 + (c % 64) >>
             [] c < 65536 -> << 224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64) >>
             [] OTHER -> << 240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
TextOk(cps, enc) == CASE enc = "ascii"  -> \A i \in 1..Len(cps) : cps[i] < 128
                      [] enc = "latin1" -> \A i \in 1..Len(cps) : cps[i] < 256
                      [] OTHER          -> \A i \in 1..Len(cps) : ~(cps[i] >= 55296 /\ cps[i] < 57344)
\* UTF-16: one or two units of two bytes, in the byte order named
Utf16Unit(u, enc) == IF enc = "utf-16-le" THEN << u % 256, u \div 256 >> ELSE << u \div 256, u % 256 >>
Utf16(c, enc) == IF c < 65536 THEN Utf16Unit(c, enc)
                 ELSE Utf16Unit(55296 + ((c - 65536) \div 1024), enc) \o Utf16Unit(56320 + ((c - 65536) % 1024), enc)
Utf16Encs == {"utf-16-le", "utf-16-be"}
TextBytes(cps, enc) == IF enc = "utf-8" THEN Flatten([i \in 1..Len(cps) |-> Utf8(cps[i])])
                       ELSE IF enc \in Utf16Encs THEN Flatten([i \in 1..Len(cps) |-> Utf16(cps[i], enc)]) ELSE cps

RECURSIVE Utf8Ok(_)
Utf8Ok(b) ==
  IF b = <<>> THEN TRUE
  ELSE LET c == b[1]
           cont(i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
       IN CASE c < 128 -> Utf8Ok(Tail(b))
            [] c >= 194 /\ c < 224 -> cont(2) /\ Utf8Ok(Drop(b, 2))
            [] c >= 224 /\ c < 240 -> /\ cont(2) /\ cont(3)
                                      /\ (c = 224 => b[2] >= 160) /\ (c = 237 => b[2] < 160)
                                      /\ Utf8Ok(Drop(b, 3))
            [] c >= 240 /\ c < 245 -> /\ cont(2) /\ cont(3) /\ cont(4)
                                      /\ (c = 240 => b[2] >= 144) /\ (c = 244 => b[2] < 144)
                                      /\ Utf8Ok(Drop(b, 4))
            [] OTHER -> FALSE
RECURSIVE Utf8Cps(_)
Utf8Cps(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET c == b[1]
           k(i) == b[i] - 128
       IN CASE c < 128 -> <<c>> \o Utf8Cps(Tail(b))
            [] c < 224 -> << (c - 192) * 64 + k(2) >> \o Utf8Cps(Drop(b, 2))
            [] c < 240 -> << (c - 224) * 4096 + k(2) * 64 + k(3) >> \o Utf8Cps(Drop(b, 3))
            [] OTHER -> << (c - 240) * 262144 + k(2) * 4096 + k(3) * 64 + k(4) >> \o Utf8Cps(Drop(b, 4))
UnitAt(b, i, enc) == IF enc = "utf-16-le" THEN b[i] + 256 * b[i + 1] ELSE 256 * b[i] + b[i + 1]
RECURSIVE Utf16Ok(_, _)
Utf16Ok(b, enc) ==
  IF b = <<>> THEN TRUE ELSE IF Len(b) = 1 THEN FALSE
  ELSE LET u == UnitAt(b, 1, enc) IN
       IF u < 55296 \/ u > 57343 THEN Utf16Ok(Drop(b, 2), enc)
       ELSE u < 56320 /\ Len(b) >= 4 /\ UnitAt(b, 3, enc) \in 56320..57343 /\ Utf16Ok(Drop(b, 4), enc)
RECURSIVE Utf16Cps(_, _)
Utf16Cps(b, enc) ==
  IF b = <<>> THEN <<>>
  ELSE LET u == UnitAt(b, 1, enc) IN
       IF u < 55296 \/ u > 57343 THEN <<u>> \o Utf16Cps(Drop(b, 2), enc)
       ELSE << 65536 + 1024 * (u - 55296) + (UnitAt(b, 3, enc) - 56320) >> \o Utf16Cps(Drop(b, 4), enc)
BytesDecodable(b, enc) == CASE enc = "ascii" -> \A i \in 1..Len(b) : b[i] < 128
                            [] enc = "latin1" -> TRUE
                            [] enc = "utf-8" -> Utf8Ok(b)
                            [] OTHER -> Utf16Ok(b, enc)
TextOf(b, enc) == IF enc = "utf-8" THEN Utf8Cps(b) ELSE IF enc \in Utf16Encs THEN Utf16Cps(b, enc) ELSE b
=============================================================================
