----------------------------- MODULE HexFormats -----------------------------
(* The hex file formats: what a line of text means, what a whole file denotes *)
(* and which files a writer may produce for an image.  Text is a sequence of  *)
(* character codes, an address a pair <<hi, lo>> of 16-bit halves.            *)
EXTENDS Bytes, TLC, FiniteSets

------------------------------------------------------------------------------
(* characters *)
IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
AllHex(t) == \A i \in 1..Len(t) : IsHex(t[i])
HexPairs(t) == [i \in 1..(Len(t) \div 2) |-> HexVal(t[2 * i - 1]) * 16 + HexVal(t[2 * i])]
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
ToHex(b) == Flatten([i \in 1..Len(b) |-> <<Digit(b[i] \div 16), Digit(b[i] % 16)>>])
SPACE == 32
IsBlank(c) == c \in {32, 13, 9, 10}
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ IsBlank(t[Len(t)]) THEN RStrip(Take(t, Len(t) - 1)) ELSE t
StartsWith(t, p) == Len(t) >= Len(p) /\ Take(t, Len(p)) = p

(* addresses *)
AddP(p, n) == LET lo == p[2] + n IN <<p[1] + lo \div 65536, lo % 65536>>
LtP(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LeP(p, q) == p = q \/ LtP(p, q)
A16(b) == <<0, b[1] * 256 + b[2]>>
A24(b) == <<b[1], b[2] * 256 + b[3]>>
A32(b) == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
(* last byte's address of a chunk [a, d], d not empty *)
LastP(ch) == AddP(ch.a, Len(ch.d) - 1)
BitsOk(p, bits) == CASE bits = 16 -> p[1] = 0 [] bits = 20 -> p[1] < 16 [] bits = 24 -> p[1] < 256 [] bits = 32 -> p[1] < 65536 [] OTHER -> TRUE

(* chunks -> sections: sorted, adjacent ones merged *)
RECURSIVE MergeR(_, _, _)
MergeR(acc, cur, rest) ==      \* cur: [a, ds] with ds the sequence of data blocks
  IF rest = <<>> THEN Append(acc, cur)
  ELSE LET h == Head(rest) IN
       IF AddP(cur.a, cur.n) = h.a THEN MergeR(acc, [a |-> cur.a, n |-> cur.n + Len(h.d), ds |-> Append(cur.ds, h.d)], Tail(rest))
       ELSE MergeR(Append(acc, cur), [a |-> h.a, n |-> Len(h.d), ds |-> <<h.d>>], Tail(rest))
Merged(chunks) ==
  IF chunks = <<>> THEN <<>>
  ELSE LET h == Head(chunks)  m == MergeR(<<>>, [a |-> h.a, n |-> Len(h.d), ds |-> <<h.d>>], Tail(chunks))
       IN [i \in 1..Len(m) |-> [a |-> m[i].a, d |-> Flatten(m[i].ds)]]
SortedChunks(chunks) == SortSeq(chunks, LAMBDA x, y : LtP(x.a, y.a))
Disjoint(sorted) == \A i \in 1..(Len(sorted) - 1) : LeP(AddP(sorted[i].a, Len(sorted[i].d)), sorted[i + 1].a)
Denotes(chunks) == Merged(SortedChunks(chunks))

------------------------------------------------------------------------------
(* checksums *)
NibbleSum(b) == Sum([i \in 1..Len(b) |-> (b[i] \div 16) + (b[i] % 16)]) % 256
RotL(v) == ((v * 2) % 256) + (v \div 128)
RECURSIVE RotXorR(_, _)
RotXorR(b, cs) == IF b = <<>> THEN cs ELSE RotXorR(Tail(b), RotL(BitXor(cs, Head(b))))
RotXor(b) == RotXorR(b, 0)

------------------------------------------------------------------------------
(* Lines.  kinds: "data" (a, d), "base" (Intel extended addresses), "addr"     *)
(* (ASCII formats), "more" (data following the current address), "start",      *)
(* "count", "head", "end", "skip" (no meaning), "bad" (must be refused),       *)
(* "unknown" (the specification says nothing)                                   *)
None == <<0, 0>>
L(k) == [k |-> k, a |-> None, d |-> <<>>]
LD(a, d) == [k |-> "data", a |-> a, d |-> d]

IHexLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 58 THEN L("skip")      \* garbage is ignored
  ELSE IF Len(t) < 11 \/ ~AllHex(Tail(t)) \/ Len(t) % 2 = 0 THEN L("unknown")
  ELSE LET b == HexPairs(Tail(t))  n == Len(b)  d == SubSeq(b, 5, n - 1) IN
       IF n = 5 THEN IF b[1] # 0 \/ b[4] # 1 THEN L("unknown") ELSE IF Sum(b) % 256 = 0 THEN L("end") ELSE L("unknown")
       ELSE IF t[8] > 57 \/ t[9] > 57 THEN L("unknown")      \* record types are decimal
       ELSE IF b[1] # Len(d) \/ Sum(b) % 256 # 0 THEN L("bad")
       ELSE CASE b[4] = 0 -> LD(A16(<<b[2], b[3]>>), d)
              [] b[4] = 2 /\ Len(d) = 2 -> [k |-> "base", a |-> <<d[1] \div 16, ((d[1] % 16) * 256 + d[2]) * 16>>, d |-> <<>>]
              [] b[4] = 4 /\ Len(d) = 2 -> [k |-> "base", a |-> <<d[1] * 256 + d[2], 0>>, d |-> <<>>]
              [] b[4] \in {3, 5} /\ Len(d) = 4 -> L("skip")
              [] b[4] > 5 -> L("skip")      \* records of unknown type are ignored
              [] OTHER -> L("unknown")

SWidth(c) == CASE c \in {48, 49, 53, 57} -> 2 [] c \in {50, 56} -> 3 [] c \in {51, 55} -> 4 [] OTHER -> 0
SRecLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 83 THEN L("skip")      \* garbage is ignored
  ELSE IF Len(t) < 4 \/ SWidth(t[2]) = 0 \/ ~AllHex(Drop(t, 2)) \/ Len(t) % 2 = 1 THEN L("unknown")
  ELSE LET b == HexPairs(Drop(t, 2))  n == Len(b)
           w == IF t[2] = 53 /\ n \in 4..6 THEN n - 2 ELSE SWidth(t[2])      \* counts are as wide as the addresses
       IN
       IF n < w + 2 THEN L("unknown")
       ELSE LET d == SubSeq(b, w + 2, n - 1)
                a == CASE w = 2 -> A16(Slice(b, 1, 2)) [] w = 3 -> A24(Slice(b, 1, 3)) [] w = 4 -> A32(Slice(b, 1, 4))
                k == CASE t[2] = 48 -> "head" [] t[2] \in {49, 50, 51} -> "data" [] t[2] = 53 -> "count" [] OTHER -> "start"
                ty == t[2] - 48
            IN IF k \in {"count", "start"} /\ d # <<>> THEN L("unknown")
               ELSE IF k \in {"head", "data"} /\ d = <<>> THEN L("unknown")
               ELSE IF k \in {"count", "start"} /\ b[1] # n - 1 /\ Sum(b) % 256 = 255 THEN L("unknown")
               ELSE IF b[1] # n - 1 \/ Sum(b) % 256 # 255 THEN L("bad")
               ELSE [k |-> k, a |-> a, d |-> d, t |-> ty]

(* ":AAAALLBBDDCC" *)
SigLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 58 THEN L("skip")      \* garbage is ignored
  ELSE IF ~AllHex(Tail(t)) THEN L("unknown")
  ELSE IF Len(t) = 7 /\ t[6] = 48 /\ t[7] = 48 THEN [L("end") EXCEPT !.a = A16(HexPairs(Tail(t)))]
  ELSE IF Len(t) < 13 \/ Len(t) % 2 = 0 THEN L("unknown")
  ELSE LET b == HexPairs(Tail(t))  n == Len(b)  d == SubSeq(b, 5, n - 1) IN
       IF b[3] # Len(d) \/ b[4] # RotXor(Take(b, 3)) \/ b[n] # RotXor(d) THEN L("bad")
       ELSE LD(A16(b), d)

TekLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 47 THEN L("skip")      \* garbage is ignored
  ELSE IF ~AllHex(Tail(t)) \/ Len(t) % 2 = 0 THEN L("unknown")
  ELSE LET b == HexPairs(Tail(t))  n == Len(b)  d == SubSeq(b, 5, n - 1) IN
       IF n = 4 THEN IF b[3] # 0 THEN L("unknown") ELSE IF b[4] = NibbleSum(Take(b, 3)) THEN [L("end") EXCEPT !.a = A16(b)] ELSE L("bad")
       ELSE IF n < 6 THEN L("unknown")
       ELSE IF b[3] # Len(d) \/ b[4] # NibbleSum(Take(b, 3)) \/ b[n] # NibbleSum(d) THEN L("bad")
       ELSE LD(A16(b), d)

MosLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 59 \/ ~AllHex(Tail(t)) \/ Len(t) % 2 = 0 THEN L("unknown")
  ELSE LET b == HexPairs(Tail(t))  n == Len(b)  d == SubSeq(b, 4, n - 2) IN
       IF b = <<0>> THEN L("end")
       ELSE IF n < 6 THEN L("unknown")
       ELSE IF b[1] # Len(d) \/ Sum(Take(b, n - 2)) % 65536 # b[n - 1] * 256 + b[n] THEN L("bad")
       ELSE LD(A16(<<b[2], b[3]>>), d)

(* "LL AAAA:DD DD .. CCCC" *)
EmonLine(t) ==
  LET n == Len(t) IN
  IF t = <<>> THEN L("skip")
  ELSE IF n < 15 \/ ~(t[3] = 32 /\ t[8] = 58 /\ t[n - 4] = 32) THEN L("unknown")
  ELSE LET body == SubSeq(t, 9, n - 5)   \* "DD DD .. DD"
           m == (Len(body) + 1) \div 3
       IN IF Len(body) % 3 # 2 \/ (\E i \in 1..Len(body) : (i % 3 = 0) # (body[i] = 32)) THEN L("unknown")
          ELSE LET hx == SubSeq(t, 1, 2) \o SubSeq(t, 4, 7) \o SubSeq(t, n - 3, n) \o Flatten([i \in 1..m |-> SubSeq(body, 3 * i - 2, 3 * i - 1)]) IN
               IF ~AllHex(hx) THEN L("unknown")
               ELSE LET b == HexPairs(hx)  d == Drop(b, 5) IN
                    IF b[1] # m \/ Sum(d) % 65536 # b[4] * 256 + b[5] THEN L("bad")
                    ELSE LD(A16(<<b[2], b[3]>>), d)

(* "%LL6CCAAAAADD" as objutils writes and reads it, "%LL8..." terminates *)
EtekLine(t) ==
  LET n == Len(t) IN
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 37 \/ n < 13 \/ t[4] \notin {54, 56} \/ ~AllHex(Tail(t)) \/ n % 2 = 0 THEN L("unknown")
  ELSE LET ll == HexVal(t[2]) * 16 + HexVal(t[3])
           cc == HexVal(t[5]) * 16 + HexVal(t[6])
           d == HexPairs(Drop(t, 11))
           a == <<HexVal(t[7]), HexVal(t[8]) * 4096 + HexVal(t[9]) * 256 + HexVal(t[10]) * 16 + HexVal(t[11])>>
           s == (NibbleSum(d) + NibbleSum(<<ll, t[4] - 48>>) + Sum([i \in 1..5 |-> HexVal(t[6 + i])])) % 256
       IN IF ll # (Len(d) + 5) * 2 \/ cc # s THEN L("bad") ELSE IF t[4] = 56 THEN [L("end") EXCEPT !.a = a] ELSE LD(a, d)

(* base 85, four bytes per five characters *)
FpcVal(c) == IF c < 42 THEN c - 37 ELSE c - 38
FpcChar(c) == c >= 37 /\ c <= 122 /\ c # 42
RECURSIVE MulAdd(_, _)
\* big endian bytes * 85 + v; one extra byte on the left takes the overflow
MulAdd(b, v) == IF b = <<>> THEN <<>>
                ELSE LET x == b[Len(b)] * 85 + v IN Append(MulAdd(Take(b, Len(b) - 1), x \div 256), x % 256)
RECURSIVE Quint(_, _)
Quint(t, acc) == IF t = <<>> THEN acc ELSE Quint(Tail(t), MulAdd(acc, FpcVal(Head(t))))
RECURSIVE FpcBytes(_)
FpcBytes(t) == IF t = <<>> THEN <<>> ELSE Quint(Take(t, 5), Zeros(5)) \o FpcBytes(Drop(t, 5))     \* 5 bytes per group, first must be 0
FpcLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t[1] # 36 \/ (Len(t) - 1) % 5 # 0 \/ Len(t) < 6 \/ (\E i \in 2..Len(t) : ~FpcChar(t[i])) THEN L("unknown")
  ELSE LET q == FpcBytes(Tail(t))  g == Len(q) \div 5
           b == Flatten([i \in 1..g |-> SubSeq(q, 5 * i - 3, 5 * i)])
       IN IF \E i \in 1..g : q[5 * i - 4] # 0 THEN L("unknown")
          ELSE IF b = <<0, 0, 0, 0>> THEN L("end")
          ELSE IF Len(b) >= 8 /\ b[3] = 0 /\ b[4] = 1 THEN      \* follows the record before
               LET n == b[2] - 4  body == Drop(b, 4) IN
               IF n < 0 THEN L("unknown")
               ELSE IF n > Len(body) THEN L("bad")
               ELSE IF (Sum(Take(b, 4)) + Sum(Take(body, n))) % 256 # 0 THEN L("bad")
               ELSE IF n = 0 THEN L("unknown")
               ELSE [k |-> "more", a |-> None, d |-> Take(body, n)]
          ELSE IF Len(b) < 12 \/ b[3] # 0 \/ b[4] # 0 THEN L("unknown")
          ELSE LET n == b[2] - 4  body == Drop(b, 8) IN
               IF n < 0 THEN L("unknown")
               ELSE IF n > Len(body) THEN L("bad")
               ELSE IF (Sum(Take(b, 8)) + Sum(Take(body, n))) % 256 # 0 THEN L("bad")
               ELSE IF n = 0 THEN L("unknown")
               ELSE LD(A32(SubSeq(b, 5, 8)), Take(body, n))

(* "!MAAAA DD..", "?MAAAA DD..", "AAAA DD..", "DD.." *)
CosmacLine(t0) ==
  LET pre == StartsWith(t0, <<33, 77>>) \/ StartsWith(t0, <<63, 77>>)
      t == IF pre THEN Drop(t0, 2) ELSE t0
      n == Len(t)
  IN IF t0 = <<>> THEN L("skip")
     ELSE IF n >= 7 /\ t[5] = 32 /\ AllHex(Take(t, 4)) /\ AllHex(Drop(t, 5)) /\ (n - 5) % 2 = 0
          THEN LD(A16(HexPairs(Take(t, 4))), HexPairs(Drop(t, 5)))
     ELSE IF ~pre /\ AllHex(t) /\ n % 2 = 0 THEN [k |-> "more", a |-> None, d |-> HexPairs(t)]
     ELSE L("unknown")

RcaLine(t0) ==
  LET t == SelectSeq(t0, LAMBDA c : c # 0)
      n == Len(t)
  IN IF t = <<>> THEN L("skip")
     ELSE IF t = <<33, 77>> \/ t = <<58, 48, 48, 48, 48>> THEN L("skip")
     ELSE IF Len(t0) = n /\ n >= 8 /\ t[5] = 32 /\ t[n] = 59 /\ AllHex(Take(t, 4)) /\ AllHex(SubSeq(t, 6, n - 1)) /\ (n - 6) % 2 = 0
          THEN LD(A16(HexPairs(Take(t, 4))), HexPairs(SubSeq(t, 6, n - 1)))
     ELSE L("unknown")

(* numbers separated by blanks / , / % / ' *)
Separated(t, seps) ==   \* every third character separates
  /\ Len(t) % 3 = 2
  /\ \A i \in 1..Len(t) : IF i % 3 = 0 THEN t[i] \in seps ELSE IsHex(t[i])
SepBytes(t) == [i \in 1..((Len(t) + 1) \div 3) |-> HexVal(t[3 * i - 2]) * 16 + HexVal(t[3 * i - 1])]
AddrOf(h) == LET p == Rep(48, 8 - Len(h)) \o h IN A32(HexPairs(p))

TitxtLine(t) ==
  IF t = <<>> THEN L("skip")
  ELSE IF t = <<113>> THEN L("end")
  ELSE IF t[1] = 64 /\ Len(t) \in 3..9 /\ AllHex(Tail(t)) THEN [L("addr") EXCEPT !.a = AddrOf(Tail(t))]
  ELSE IF Separated(t, {32}) THEN [k |-> "more", a |-> None, d |-> SepBytes(t)]
  ELSE L("unknown")

AshLine(t0) ==
  LET t == IF Len(t0) > 2 /\ t0[1] = 2 /\ t0[2] = 32 THEN Drop(t0, 2) ELSE t0
      n == Len(t)
  IN IF t = <<>> \/ t = <<2>> THEN L("skip")
     ELSE IF t[1] = 3 THEN
       IF n = 8 /\ t[2] = 36 /\ t[3] = 36 /\ t[8] = 44 /\ AllHex(SubSeq(t, 4, 7)) THEN [L("end") EXCEPT !.a = A16(HexPairs(SubSeq(t, 4, 7)))] ELSE L("unknown")
     ELSE IF n >= 5 /\ t[1] = 36 /\ t[2] = 65 /\ t[n] \in {44, 46} /\ n <= 11 /\ AllHex(SubSeq(t, 3, n - 1))
          THEN [L("addr") EXCEPT !.a = AddrOf(SubSeq(t, 3, n - 1))]
     ELSE IF Separated(t, {32, 37, 39, 44}) THEN [k |-> "more", a |-> None, d |-> SepBytes(t)]
     ELSE L("unknown")

Line(fmt, t0) ==
  LET t == IF fmt = "rca" THEN t0 ELSE RStrip(t0) IN
  CASE fmt = "ihex" -> IHexLine(t) [] fmt = "srec" -> SRecLine(t) [] fmt = "sig" -> SigLine(t) [] fmt = "tek" -> TekLine(t)
    [] fmt = "mostec" -> MosLine(t) [] fmt = "emon52" -> EmonLine(t) [] fmt = "etek" -> EtekLine(t) [] fmt = "fpc" -> FpcLine(t)
    [] fmt = "cosmac" -> CosmacLine(t) [] fmt = "rca" -> RcaLine(RStrip(t)) [] fmt = "titxt" -> TitxtLine(t) [] fmt = "ash" -> AshLine(t)

------------------------------------------------------------------------------
(* A file: a reader consumes one line at a time.                               *)
(* base: Intel base address; at: where "more" goes; over: nothing follows       *)
ReaderInit == [st |-> "ok", base |-> None, at |-> None, chunks |-> <<>>, over |-> FALSE, n |-> 0]
Step(fmt, r, ln) ==
  IF r.st # "ok" \/ (r.over /\ fmt = "titxt") THEN r
  ELSE CASE ln.k = "bad" -> [r EXCEPT !.st = "bad"]
         [] ln.k = "unknown" -> [r EXCEPT !.st = "unknown"]
         [] ln.k = "base" -> [r EXCEPT !.base = ln.a]
         [] ln.k = "addr" -> [r EXCEPT !.at = ln.a]
         [] ln.k = "data" -> LET a == <<r.base[1] + (r.base[2] + ln.a[2]) \div 65536 + ln.a[1], (r.base[2] + ln.a[2]) % 65536>>
                             IN [r EXCEPT !.chunks = Append(@, [a |-> a, d |-> ln.d]), !.at = AddP(a, Len(ln.d)),
                                          !.st = IF r.over \/ (fmt = "ihex" /\ ln.a[2] + Len(ln.d) > 65536) \/ ~BitsOk(AddP(a, Len(ln.d) - 1), 32) THEN "unknown" ELSE @]
         [] ln.k = "more" -> [r EXCEPT !.chunks = Append(@, [a |-> r.at, d |-> ln.d]), !.at = AddP(r.at, Len(ln.d)),
                                       !.st = IF r.over THEN "unknown" ELSE @]
         [] ln.k = "end" -> [r EXCEPT !.over = TRUE]
         [] OTHER -> r
RECURSIVE ReadR(_, _, _, _)
ReadR(fmt, lines, i, r) == IF i > Len(lines) THEN r ELSE ReadR(fmt, lines, i + 1, Step(fmt, r, Line(fmt, lines[i])))
\* a corrupted record is to be refused even if unknown lines came before or follow
Read(fmt, lines) ==
  LET r == ReadR(fmt, lines, 1, ReaderInit)
      s == SortedChunks(r.chunks)
  IN IF r.st = "ok" /\ ~Disjoint(s) THEN [st |-> "unknown", img |-> <<>>]
     ELSE [st |-> r.st, img |-> IF r.st = "ok" THEN Merged(s) ELSE <<>>]

------------------------------------------------------------------------------
(* Writers.                                                                     *)
MaxBits(fmt) == CASE fmt \in {"ihex", "srec"} -> 32 [] fmt = "etek" -> 20 [] OTHER -> 16
MaxRow(fmt, ty) == CASE fmt \in {"ihex", "sig", "tek", "mostec", "emon52"} -> 255 [] fmt = "srec" -> 253 - ty
                     [] fmt = "etek" -> 122 [] fmt = "fpc" -> 251 [] OTHER -> 1000000
\* bits needed; S-records: the record type forced by the caller
TypeBits(ty) == 8 * (ty + 1)
AutoType(p) == IF p[1] = 0 THEN 1 ELSE IF p[1] < 256 THEN 2 ELSE 3
RECURSIVE LongestR(_, _)
LongestRow(lens, row) == LongestR([i \in 1..Len(lens) |-> Min(lens[i], row)], 0)
LongestR(q, m) == IF q = <<>> THEN m ELSE LongestR(Tail(q), Max(m, Head(q)))

\* opts: [row, ty (0: chosen by the writer), s5, start (<<>> or an address), lens: lengths of the image's sections]
WriteFaults(fmt, img, opts) ==
  LET lst == LastP(img[Len(img)])
      bits == IF fmt = "srec" /\ opts.ty # 0 THEN TypeBits(opts.ty) ELSE MaxBits(fmt)
      ty == IF opts.ty # 0 THEN opts.ty ELSE AutoType(lst)
  IN (IF ~BitsOk(lst, bits) THEN {"range"} ELSE {})
     \cup (IF LongestRow(opts.lens, opts.row) > MaxRow(fmt, ty) THEN {"row"} ELSE {})

\* drop trailing blank lines
RECURSIVE TrimR(_)
TrimR(ls) == IF ls # <<>> /\ RStrip(ls[Len(ls)]) = <<>> THEN TrimR(Take(ls, Len(ls) - 1)) ELSE ls
DataLens(ps) == LET q == SelectSeq(ps, LAMBDA x : x.k \in {"data", "more"}) IN [i \in 1..Len(q) |-> Len(q[i].d)]
CountKind(ps, k) == Cardinality({i \in 1..Len(ps) : ps[i].k = k})

\* the clause a written file violates, "" if none.  head: the S0 records the
\* image carries as meta data [a, d]; entry: its S7/S8/S9 address or <<>>
WriteClause(fmt, img, opts, lines0, head, entry) ==
  LET lines == TrimR(lines0)
      ps == TLCEval([i \in 1..Len(lines) |-> Line(fmt, lines[i])])
      n == Len(ps)
      r == ReadR(fmt, lines, 1, ReaderInit)
      kinds == {ps[i].k : i \in 1..n}
      lens == TLCEval(DataLens(ps))
      ty == IF opts.ty # 0 THEN opts.ty ELSE AutoType(LastP(img[Len(img)]))
      nohead == SelectSeq(ps, LAMBDA x : x.k # "head")
      heads == SelectSeq(ps, LAMBDA x : x.k = "head")
      tail == SelectSeq(ps, LAMBDA x : x.k \in {"count", "start"})
      wantstart == IF fmt # "srec" \/ opts.start = <<>> THEN <<>> ELSE IF entry # <<>> THEN entry ELSE opts.start
  IN IF n = 0 THEN "empty file"
     ELSE IF "unknown" \in kinds THEN "line that is no record of the format"
     ELSE IF "bad" \in kinds THEN "record with wrong checksum or length"
     ELSE IF \E i \in 1..Len(lens) : lens[i] > opts.row THEN "record longer than the row length"
     ELSE IF r.st # "ok" THEN "data after the end or outside of the address range"
     ELSE IF Denotes(r.chunks) # Denotes(img) THEN "the file denotes another image"
     ELSE IF ~Disjoint(r.chunks) THEN "records out of order"
     ELSE IF fmt \in {"ihex", "sig", "tek", "mostec", "fpc", "titxt", "ash"} /\ (CountKind(ps, "end") # 1 \/ ps[n].k # "end") THEN "terminating record missing or misplaced"
     ELSE IF fmt = "ihex" /\ \E i \in 1..n : ps[i].k = "skip" THEN "superfluous record"
     ELSE IF fmt = "sig" /\ ps[n].a # AddP(LastP(img[Len(img)]), 1) /\ AddP(LastP(img[Len(img)]), 1)[1] = 0 THEN "wrong address in the terminating record"
     ELSE IF fmt = "tek" /\ ps[n].a # AddP(LastP(img[Len(img)]), 1) /\ AddP(LastP(img[Len(img)]), 1)[1] = 0 THEN "wrong address in the terminating record"
     ELSE IF fmt = "ash" /\ ps[n].a[2] # Sum([i \in 1..Len(img) |-> Sum(img[i].d)]) % 65536 THEN "wrong file checksum"
     ELSE IF fmt = "srec" /\ \E i \in 1..n : ps[i].k = "data" /\ ps[i].t # ty THEN "wrong record type"
     ELSE IF fmt = "srec" /\ [i \in 1..Len(heads) |-> [a |-> heads[i].a, d |-> heads[i].d]] # head THEN "header records differ"
     ELSE IF fmt = "srec" /\ \E i \in 1..Len(heads) : ps[i].k # "head" THEN "header records misplaced"
     ELSE IF fmt = "srec" /\ Len(tail) # (IF opts.s5 THEN 1 ELSE 0) + (IF wantstart = <<>> THEN 0 ELSE 1) THEN "count or start address record missing or superfluous"
     ELSE IF fmt = "srec" /\ \E i \in 1..Len(tail) : ps[n - Len(tail) + i] # tail[i] THEN "count or start address record misplaced"
     ELSE IF fmt = "srec" /\ opts.s5 /\ (tail[1].k # "count" \/ tail[1].a # <<CountKind(ps, "data") \div 65536, CountKind(ps, "data") % 65536>>) THEN "wrong record count"
     ELSE IF fmt = "srec" /\ wantstart # <<>> /\ (tail[Len(tail)].k # "start" \/ tail[Len(tail)].t # 10 - ty \/ tail[Len(tail)].a # wantstart) THEN "wrong start address record"
     ELSE ""
=============================================================================
