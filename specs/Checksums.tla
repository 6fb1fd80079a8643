----------------------------- MODULE Checksums -----------------------------
(* The checksums of objutils: sums, longitudinal redundancy checks, exclusive *)
(* or, and cyclic redundancy codes.  Every code is a machine that is fed one   *)
(* byte at a time; the cyclic codes are also defined a second time, as the     *)
(* remainder of a polynomial division (see ChecksumMC).                        *)
(* A 32-bit number is <<hi, lo>>, halves of 16 bits.                           *)
EXTENDS Bytes, Bitwise, SequencesExt

Bit(v, k) == (v \div (2^k)) % 2
Add32(p, lo) == LET s == p[2] + lo IN << (p[1] + (s \div 65536)) % 65536, s % 65536 >>       \* lo < 65536
AddHL(p, q) == LET s == p[2] + q[2] IN << (p[1] + q[1] + (s \div 65536)) % 65536, s % 65536 >>

Reflect(v, n) == LET RECURSIVE r(_)
                     r(k) == IF k = n THEN 0 ELSE Bit(v, k) * 2^(n - 1 - k) + r(k + 1)
                 IN r(0)
RolByte(v) == (v % 128) * 2 + v \div 128
RorByte(v) == v \div 2 + (v % 2) * 128

------------------------------------------------------------------------------
(* Cyclic codes, bit by bit, most significant bit of the register first.       *)
Shift16(poly, r, bit) == LET s == (r * 2) % 65536 IN IF r \div 32768 # bit THEN s ^^ poly ELSE s
BitsOf(b) == [k \in 1..8 |-> Bit(b, 8 - k)]                     \* most significant first
Feed16(poly, r, b) == FoldLeft(LAMBDA q, x : Shift16(poly, q, x), r, BitsOf(b))
Shift32(r, bit) ==   \* reflected register, polynomial EDB88320
  LET x == (r[2] + bit) % 2
      s == << r[1] \div 2, (r[1] % 2) * 32768 + r[2] \div 2 >>
  IN IF x = 1 THEN << s[1] ^^ 60856, s[2] ^^ 33568 >> ELSE s
Feed32(r, b) == FoldLeft(LAMBDA q, x : Shift32(q, x), r, Rev(BitsOf(b)))

------------------------------------------------------------------------------
(* All machines together.  A register per algorithm; n counts the bytes.       *)
Start == [n |-> 0, sum |-> <<0, 0>>, word |-> 0, words |-> <<0, 0>>, dword |-> <<0, 0>>, dwords |-> <<0, 0>>,
          arc |-> 0, ccitt |-> 65535, crc32 |-> <<65535, 65535>>, xor |-> 0, rol |-> 0, ror |-> 0, nib |-> 0]
Feed(s, b) ==
  LET k == s.n % 4
      word == IF s.n % 2 = 0 THEN b ELSE s.word + 256 * b
      half == IF k < 2 THEN 2 ELSE 1
      dw == [(IF k = 0 THEN <<0, 0>> ELSE s.dword) EXCEPT ![half] = @ + (IF k % 2 = 0 THEN b ELSE 256 * b)]
  IN [n |-> s.n + 1, sum |-> Add32(s.sum, b),
      word |-> word, words |-> IF s.n % 2 = 1 THEN Add32(s.words, word) ELSE s.words,
      dword |-> dw, dwords |-> IF k = 3 THEN AddHL(s.dwords, dw) ELSE s.dwords,
      arc |-> Feed16(32773, s.arc, Reflect(b, 8)), ccitt |-> Feed16(4129, s.ccitt, b), crc32 |-> Feed32(s.crc32, b),
      xor |-> s.xor ^^ b, rol |-> RolByte(s.rol ^^ b), ror |-> RorByte(s.ror ^^ b),
      nib |-> (s.nib + (b \div 16) + (b % 16)) % 256]
After(frame) == FoldLeft(Feed, Start, frame)

(* The results, all as <<hi, lo>>.                                             *)
N(v) == <<0, v>>
Low(p, w) == IF w >= 32 THEN p ELSE IF w > 16 THEN << p[1] % 2^(w - 16), p[2] >> ELSE IF w = 16 THEN <<0, p[2]>> ELSE <<0, p[2] % 2^w>>
Ones(p, w) == Low(<<65535 - p[1], 65535 - p[2]>>, w)
Lrc(s, w, comp) == LET c == Low(s.sum, w) IN
                   CASE comp = 0 -> c [] comp = 1 -> Ones(c, w) [] comp = 2 -> Low(Add32(Ones(c, w), 1), w)
Named(s, a) ==
  CASE a = "CHK_ADD_11" -> Low(s.sum, 8) [] a = "CHK_ADD_12" -> Low(s.sum, 16) [] a = "CHK_ADD_14" -> s.sum
    [] a = "CHK_ADD_22" -> Low(s.words, 16) [] a = "CHK_ADD_24" -> s.words [] a = "CHK_ADD_44" -> s.dwords
    [] a = "CHK_CRC_16" -> N(Reflect(s.arc, 16)) [] a = "CHK_CRC_16_CCITT" -> N(s.ccitt)
    [] a = "CHK_CRC_32" -> <<65535 - s.crc32[1], 65535 - s.crc32[2]>>
Names == {"CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44", "CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32"}
\* how many bytes a frame must be a multiple of
Unit(a) == CASE a \in {"CHK_ADD_22", "CHK_ADD_24"} -> 2 [] a = "CHK_ADD_44" -> 4 [] OTHER -> 1

Result(s, q) ==
  CASE q.f = "check" -> Named(s, q.a)
    [] q.f = "lrc" -> Lrc(s, q.w, q.c)
    [] q.f = "xor" -> N(IF q.c = 1 THEN s.xor ^^ 255 ELSE s.xor)
    [] q.f = "rotated" -> N((IF q.c = 0 THEN s.rol ELSE s.ror) % 2^q.w)
    [] q.f = "nibble" -> N(s.nib)
=============================================================================
