----------------------------- MODULE ChecksumMC -----------------------------
(* All short frames over an alphabet, fed byte by byte to all machines.  Every *)
(* step prints the frame with all results, to be replayed on the code.         *)
(* Invariants: the machines agree with independent definitions (polynomial     *)
(* division over GF(2), plain sums) and the codes detect the errors they are   *)
(* there to detect.                                                            *)
EXTENDS Checksums, TLC, Json, IOUtils, FiniteSets

CONSTANTS ALPHABET, MAXLEN
VARIABLES frame, s
vars == <<frame, s>>

(* Division: the remainder of bits * x^16 by x^16 + poly, long hand.  The      *)
(* preset of the register is added to the first 16 bits of the dividend.       *)
Bits16(v) == [k \in 1..16 |-> Bit(v, 16 - k)]
XorSeq(a, b) == [k \in 1..Len(a) |-> XorBit(a[k], b[k])]
RECURSIVE Divide(_, _)
Divide(bits, poly) ==    \* poly: 16 bits
  IF Len(bits) <= 16 THEN bits
  ELSE Divide((IF bits[1] = 1 THEN XorSeq(Take(Tail(bits), 16), poly) ELSE Take(Tail(bits), 16)) \o Drop(bits, 17), poly)
Remainder(bits, poly, preset) ==
  LET d == bits \o Zeros(16) IN Divide(XorSeq(Take(d, 16), preset) \o Drop(d, 16), poly)
AllBits(f, refl) == Flatten([k \in 1..Len(f) |-> IF refl THEN Rev(BitsOf(f[k])) ELSE BitsOf(f[k])])

Agree == /\ Bits16(s.ccitt) = Remainder(AllBits(frame, FALSE), Bits16(4129), Bits16(65535))
         /\ Bits16(s.arc) = Remainder(AllBits(frame, TRUE), Bits16(32773), Bits16(0))
         /\ s.sum = <<0, Sum(frame)>> /\ s.n = Len(frame)
         /\ s = After(frame)
\* a frame followed by its own code leaves no remainder; known residue of CRC-32
Residue == /\ Feed(Feed(s, s.ccitt \div 256), s.ccitt % 256).ccitt = 0
           /\ LET r == Reflect(s.arc, 16) IN Feed(Feed(s, r % 256), r \div 256).arc = 0
           /\ LET r == Named(s, "CHK_CRC_32") IN
              Feed(Feed(Feed(Feed(s, r[2] % 256), r[2] \div 256), r[1] % 256), r[1] \div 256).crc32 = <<57019, 8419>>
Complements == \A w \in {4, 8, 12, 16, 20, 30} : /\ Low(AddHL(Lrc(s, w, 0), Lrc(s, w, 2)), w) = <<0, 0>>
                                                 /\ AddHL(Lrc(s, w, 0), Lrc(s, w, 1)) = Low(<<65535, 65535>>, w)
\* every error confined to one byte changes the cyclic codes, the sum and the exclusive or
Detects == Len(frame) <= 2 =>
  \A k \in 1..Len(frame) : \A e \in {1, 2, 64, 128, 255} :
     LET t == After([frame EXCEPT ![k] = @ ^^ e]) IN
     t.ccitt # s.ccitt /\ t.arc # s.arc /\ t.crc32 # s.crc32 /\ t.sum # s.sum /\ t.xor # s.xor

Queries(n) ==
  {[f |-> "check", a |-> a] : a \in {x \in Names : n % Unit(x) = 0}}
  \cup {[f |-> "lrc", w |-> w, c |-> k] : w \in {1, 4, 8, 12, 16, 30}, k \in 0..2}
  \cup {[f |-> "xor", c |-> k] : k \in {0, 1}} \cup {[f |-> "rotated", w |-> w, c |-> k] : w \in {4, 8}, k \in {0, 1}} \cup {[f |-> "nibble"]}
Report(f, st) == PrintT(ToJson([frame |-> f, res |-> {[q |-> q, r |-> Result(st, q)] : q \in Queries(st.n)}]))

Init == frame = <<>> /\ s = Start
Next == \E b \in (IF frame = <<>> THEN 0..255 ELSE ALPHABET) :
          /\ Len(frame) < MAXLEN
          /\ Len(frame) = 1 => frame[1] \in ALPHABET
          /\ frame' = Append(frame, b) /\ s' = Feed(s, b)
          /\ Report(frame', s')
Spec == Init /\ [][Next]_vars
=============================================================================
