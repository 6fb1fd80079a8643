-------------------------------- MODULE HexMC --------------------------------
(* Files spelled out from abstract records, exhaustively for small alphabets.  *)
(* Mode "seq": every sequence of up to Depth records; the image a file denotes *)
(* is also computed directly as a memory (set of address/byte pairs), which    *)
(* must agree with Read of HexFormats.  Mode "mut": every change of a single   *)
(* character, loss, repetition or swap within a record; checksums must catch   *)
(* all single digit errors.  Mode "write": images and writer options.          *)
EXTENDS HexFormats, Json, IOUtils

CONSTANTS Mode, Depth
FMT == IOEnv.FMT

------------------------------------------------------------------------------
(* abstract record -> text *)
Lrc(b) == (256 - (Sum(b) % 256)) % 256
H(b) == ToHex(b)
AB(a) == <<a[2] \div 256, a[2] % 256>>
A4(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
W16(n) == <<(n \div 256) % 256, n % 256>>
Spaced(b) == Flatten([i \in 1..Len(b) |-> IF i = 1 THEN H(<<b[i]>>) ELSE <<32>> \o H(<<b[i]>>)])

IRec(ty, a, d) == LET b == <<Len(d)>> \o AB(a) \o <<ty>> \o d IN <<58>> \o H(Append(b, Lrc(b)))
SRec(ty, a, d) ==
  LET w == IF ty \in 53..55 THEN ty - 51 ELSE SWidth(48 + ty)      \* 53, 54, 55: S5 with two, three, four bytes
      b == <<w + Len(d) + 1>> \o Drop(A4(a), 4 - w) \o d
  IN <<83, IF ty \in 53..55 THEN 53 ELSE 48 + ty>> \o H(Append(b, 255 - (Sum(b) % 256)))
SigRec(a, d) == LET h == AB(a) \o <<Len(d)>> IN <<58>> \o H(h \o <<RotXor(h)>> \o d \o <<RotXor(d)>>)
TekRec(a, d) == LET h == AB(a) \o <<Len(d)>> IN <<47>> \o H(h \o <<NibbleSum(h)>> \o d \o <<NibbleSum(d)>>)
MosRec(a, d) == LET h == <<Len(d)>> \o AB(a) \o d IN <<59>> \o H(h \o W16(Sum(h)))
EmonRec(a, d) == H(<<Len(d)>>) \o <<32>> \o H(AB(a)) \o <<58>> \o Spaced(d) \o <<32>> \o H(W16(Sum(d)))
EtekRec(ty, a, d) ==
  LET ll == (Len(d) + 5) * 2
      ad == Drop(H(A4(a)), 3)
      cc == (NibbleSum(<<ll, ty>>) + Sum([i \in 1..5 |-> HexVal(ad[i])]) + NibbleSum(d)) % 256
  IN <<37>> \o H(<<ll>>) \o <<48 + ty>> \o H(<<cc>>) \o ad \o H(d)
\* big endian bytes div 85: quotient and remainder
RECURSIVE Div85(_, _)
Div85(b, carry) == IF b = <<>> THEN [q |-> <<>>, r |-> carry]
                   ELSE LET v == carry * 256 + Head(b)  t == Div85(Tail(b), v % 85) IN [q |-> <<v \div 85>> \o t.q, r |-> t.r]
RECURSIVE Enc85(_, _)
Enc85(b, n) == IF n = 0 THEN <<>> ELSE LET x == Div85(b, 0) IN Append(Enc85(x.q, n - 1), IF x.r < 5 THEN 37 + x.r ELSE 38 + x.r)
FpcLine85(h) ==
  LET p == <<Lrc(h)>> \o h \o Zeros((3 - (Len(h) % 4)) % 4)
  IN <<36>> \o Flatten([i \in 1..(Len(p) \div 4) |-> Enc85(SubSeq(p, 4 * i - 3, 4 * i), 5)])
FpcRec(a, d) == FpcLine85(<<Len(d) + 4, 0, 0>> \o A4(a) \o d)
FpcInc(d) == FpcLine85(<<Len(d) + 4, 0, 1>> \o d)

Data(ty, a, d) ==
  CASE FMT = "ihex" -> IRec(0, a, d) [] FMT = "srec" -> SRec(ty, a, d) [] FMT = "sig" -> SigRec(a, d) [] FMT = "tek" -> TekRec(a, d)
    [] FMT = "mostec" -> MosRec(a, d) [] FMT = "emon52" -> EmonRec(a, d) [] FMT = "etek" -> EtekRec(6, a, d) [] FMT = "fpc" -> FpcRec(a, d)
    [] FMT = "cosmac" -> H(AB(a)) \o <<32>> \o H(d)
    [] FMT = "rca" -> H(AB(a)) \o <<32>> \o H(d) \o <<59>>
Lower(t) == [i \in 1..Len(t) |-> IF i > 2 /\ t[i] \in 65..70 THEN t[i] + 32 ELSE t[i]]

------------------------------------------------------------------------------
(* alphabets: [k, a (offset written in the record), d, t (text)]               *)
R(k, a, d, t) == [k |-> k, a |-> a, d |-> d, t |-> t]
D1 == <<17>>
D2 == <<1, 254>>
D3 == <<160, 0, 91>>
DataRecs ==
  CASE FMT = "ihex" -> {<<0, <<0, 0>>, D1>>, <<0, <<0, 1>>, D2>>, <<0, <<0, 65533>>, D3>>, <<0, <<0, 65535>>, D1>>}
    [] FMT = "srec" -> {<<1, <<0, 0>>, D1>>, <<1, <<0, 1>>, D2>>, <<1, <<0, 65535>>, D1>>, <<2, <<1, 0>>, D3>>, <<2, <<255, 65535>>, D1>>, <<3, <<256, 0>>, D1>>, <<3, <<65535, 65533>>, D3>>}
    [] FMT = "etek" -> {<<0, <<0, 0>>, D1>>, <<0, <<0, 1>>, D2>>, <<0, <<0, 65535>>, D1>>, <<0, <<1, 0>>, D3>>, <<0, <<15, 65534>>, D2>>}
    [] FMT = "fpc" -> {<<0, <<0, 0>>, D1>>, <<0, <<0, 1>>, D2>>, <<0, <<0, 65533>>, D3>>, <<0, <<0, 3>>, <<0, 0, 0, 0>>>>, <<0, <<1, 0>>, D1>>}
    [] OTHER -> {<<0, <<0, 0>>, D1>>, <<0, <<0, 1>>, D2>>, <<0, <<0, 65533>>, D3>>, <<0, <<0, 16>>, <<255>>>>}
Others ==
  CASE FMT = "ihex" -> {R("base", <<1, 0>>, <<>>, IRec(4, None, <<0, 1>>)), R("base", <<65535, 0>>, <<>>, IRec(4, None, <<255, 255>>)),
                        R("base", <<0, 16>>, <<>>, IRec(2, None, <<0, 1>>)), R("base", <<15, 65520>>, <<>>, IRec(2, None, <<255, 255>>)),
                        R("skip", None, <<>>, IRec(3, None, <<0, 0, 56, 0>>)), R("skip", None, <<>>, IRec(5, None, <<0, 0, 0, 205>>)),
                        R("skip", None, <<>>, IRec(7, <<0, 291>>, <<0, 1>>)), R("skip", None, <<>>, IRec(66, None, D3)),
                        R("skip", None, <<>>, <<>>), R("skip", None, <<>>, <<35, 32, 120>>)}
    [] FMT = "srec" -> {R("skip", None, <<>>, SRec(0, None, <<72, 68, 82>>)), R("skip", None, <<>>, SRec(53, <<0, 3>>, <<>>)), R("skip", None, <<>>, SRec(54, <<2, 1>>, <<>>)), R("skip", None, <<>>, SRec(55, <<258, 1>>, <<>>)), R("skip", None, <<>>, SRec(9, <<0, 1>>, <<>>)),
                        R("skip", None, <<>>, SRec(7, <<1, 1>>, <<>>)), R("skip", None, <<>>, SRec(8, <<1, 1>>, <<>>)), R("skip", None, <<>>, <<>>)}
    [] FMT = "tek" -> {R("skip", None, <<>>, <<>>), R("skip", None, <<>>, <<35, 47>>)}
    [] FMT = "fpc" -> {R("more", None, D1, FpcInc(D1)), R("more", None, <<5, 6, 7, 8, 9>>, FpcInc(<<5, 6, 7, 8, 9>>)), R("skip", None, <<>>, <<>>)}
    [] FMT = "emon52" -> {R("skip", None, <<>>, <<>>)}
    [] FMT = "cosmac" -> {R("data", <<0, 32>>, D2, <<33, 77>> \o H(AB(<<0, 32>>)) \o <<32>> \o H(D2)), R("data", <<0, 64>>, D1, <<63, 77>> \o H(AB(<<0, 64>>)) \o <<32>> \o H(D1)),
                          R("more", None, D1, H(D1)), R("more", None, D3, H(D3)), R("skip", None, <<>>, <<>>)}
    [] FMT = "rca" -> {R("skip", None, <<>>, <<33, 77>>), R("skip", None, <<>>, Rep(0, 48)), R("skip", None, <<>>, <<58, 48, 48, 48, 48>>)}
    [] FMT = "titxt" -> {R("addr", <<0, 0>>, <<>>, <<64, 48, 48, 48, 48>>), R("addr", <<0, 4660>>, <<>>, <<64, 49, 50, 51, 52>>), R("addr", <<0, 65520>>, <<>>, <<64, 102, 102, 70, 48>>),
                         R("more", None, D1, Spaced(D1)), R("more", None, D3, Spaced(D3)), R("skip", None, <<>>, <<>>)}
    [] FMT = "ash" -> {R("addr", <<0, 0>>, <<>>, <<36, 65, 48, 48, 48, 48, 44>>), R("addr", <<0, 4660>>, <<>>, <<36, 65, 49, 50, 51, 52, 44>>), R("addr", <<0, 65520>>, <<>>, <<36, 65, 102, 102, 70, 48, 46>>),
                       R("more", None, D1, Spaced(D1)), R("more", None, D3, [i \in 1..8 |-> IF Spaced(D3)[i] = 32 THEN 44 ELSE Spaced(D3)[i]]),
                       R("more", None, D2, [i \in 1..5 |-> IF Spaced(D2)[i] = 32 THEN 37 ELSE Spaced(D2)[i]])}
    [] OTHER -> {R("skip", None, <<>>, <<>>)}
Alphabet == (IF FMT \in {"titxt", "ash"} THEN {} ELSE {R("data", x[2], x[3], Data(x[1], x[2], x[3])) : x \in DataRecs}) \cup Others
Prologue == CASE FMT = "ash" -> <<<<2, 32>>>> [] OTHER -> <<>>
\* mode "mut": the terminating records
Ends == CASE FMT = "tek" -> {R("end", None, <<>>, <<47>> \o H(<<18, 52, 0, NibbleSum(<<18, 52>>)>>))}
          [] FMT = "etek" -> {R("end", None, <<>>, EtekRec(8, <<1, 4660>>, D2))}
          [] FMT = "srec" -> {R("end", None, <<>>, SRec(9, <<0, 4660>>, <<>>)), R("end", None, <<>>, SRec(54, <<0, 3>>, <<>>))}
          [] OTHER -> {}
Epilogue == CASE FMT = "ihex" -> <<<<58, 48, 48, 48, 48, 48, 48, 48, 49, 70, 70>>>> [] FMT = "titxt" -> <<<<113>>>> [] FMT = "ash" -> <<<<3, 36, 36, 48, 48, 48, 48, 44>>>>
              [] FMT = "mostec" -> <<<<59, 48, 48>>>> [] FMT = "sig" -> <<<<58, 49, 48, 48, 48, 48, 48>>>> [] FMT = "tek" -> <<<<47, 48, 48, 48, 48, 48, 48, 48, 48>>>>
              [] FMT = "fpc" -> <<<<36, 37, 37, 37, 37, 37>>>> [] OTHER -> <<>>

------------------------------------------------------------------------------
(* the memory a record sequence describes *)
AddA(p, q) == LET lo == p[2] + q[2] IN <<p[1] + q[1] + lo \div 65536, lo % 65536>>
RECURSIVE Mem(_, _, _, _)
Mem(rs, base, at, m) ==
  IF rs = <<>> THEN m
  ELSE LET r == Head(rs)
           put(a) == m \o [i \in 1..Len(r.d) |-> <<AddP(a, i - 1), r.d[i]>>]
       IN CASE r.k = "data" -> LET a == AddA(base, r.a) IN Mem(Tail(rs), base, AddP(a, Len(r.d)), put(a))
            [] r.k = "more" -> Mem(Tail(rs), base, AddP(at, Len(r.d)), put(at))
            [] r.k = "addr" -> Mem(Tail(rs), base, r.a, m)
            [] r.k = "base" -> Mem(Tail(rs), r.a, at, m)
            [] OTHER -> Mem(Tail(rs), base, at, m)
MemOf(rs) == Mem(rs, None, None, <<>>)
Cells(img) == Flatten([i \in 1..Len(img) |-> [j \in 1..Len(img[i].d) |-> <<AddP(img[i].a, j - 1), img[i].d[j]>>]])
NoClash(m) == \A i, j \in 1..Len(m) : i < j => m[i][1] # m[j][1]
Rng(s) == {s[i] : i \in 1..Len(s)}

Text(rs) == Prologue \o [i \in 1..Len(rs) |-> rs[i].t] \o Epilogue
Emit(lines) ==
  LET r == Read(FMT, lines) IN
  r.st = "unknown" \/ (r.st = "ok" /\ r.img = <<>>) \/ PrintT(ToJson([fmt |-> FMT, lines |-> lines, st |-> r.st, img |-> r.img]))

------------------------------------------------------------------------------
(* mutations of a line *)
Sub(t, i, c) == [t EXCEPT ![i] = c]
Swap(t, i) == [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
Del(t, i, n) == Take(t, i - 1) \o Drop(t, i + n - 1)
Ins(t, i, u) == Take(t, i - 1) \o u \o Drop(t, i - 1)
Chars == IF FMT = "fpc" THEN {37, 38, 41, 43, 57, 80, 97, 121, 122} ELSE (48..57) \cup (65..70)
Group == IF FMT = "fpc" THEN 5 ELSE IF FMT = "emon52" THEN 3 ELSE 2
Subs(t) == {Sub(t, i, c) : i \in (IF FMT = "srec" THEN 3 ELSE 2)..Len(t), c \in Chars} \ {t}
Mutations(t) == Subs(t)
   \cup {Swap(t, i) : i \in 2..(Len(t) - 1)}
   \cup {Del(t, i, Group) : i \in 2..(Len(t) - Group + 1)}
   \cup {Ins(t, i, IF FMT = "emon52" THEN <<48, 48, 32>> ELSE IF FMT = "fpc" THEN Rep(37, 5) ELSE <<48, 48>>) : i \in 2..(Len(t) + 1)}
Victims == {r \in Alphabet : r.k = "data"} \cup Ends \cup (IF FMT \in {"ihex"} THEN {r \in Alphabet : r.k = "base"} ELSE {})

------------------------------------------------------------------------------
(* images and options for the writers *)
Lens == {1, 2, 5}
Places ==
  CASE FMT = "srec" -> {<<0, 0>>, <<0, 65531>>, <<0, 65535>>, <<255, 65531>>, <<255, 65535>>, <<65535, 65531>>, <<65535, 65535>>}
    [] FMT = "ihex" -> {<<0, 0>>, <<0, 65531>>, <<0, 65533>>, <<1, 0>>, <<15, 65533>>, <<16, 0>>, <<16, 65535>>, <<65535, 65531>>}
    [] FMT = "etek" -> {<<0, 0>>, <<0, 65533>>, <<1, 7>>, <<15, 65531>>, <<15, 65534>>, <<16, 0>>}
    [] OTHER -> {<<0, 0>>, <<0, 5>>, <<0, 7>>, <<0, 255>>, <<0, 4094>>, <<0, 65531>>, <<0, 65534>>}
Pattern(n, s) == [i \in 1..n |-> (s + i * 37) % 256]
Images == {<<[a |-> p, d |-> Pattern(n, 3)]>> : p \in Places, n \in Lens}
     \cup {<<[a |-> p, d |-> Pattern(n, 3)], [a |-> q, d |-> Pattern(m, 200)]>> : p \in Places, q \in Places, n \in Lens, m \in {1, 5}}
\* mode "digits": one section at every address made of the digits 0, 1, 8 and F; every byte value
Digits == IF FMT \in {"ihex", "srec"} THEN {0, 15} ELSE {0, 1, 8, 15}
Words == {a * 4096 + b * 256 + c * 16 + d : a \in Digits, b \in Digits, c \in Digits, d \in Digits}
AllPlaces == CASE FMT \in {"ihex", "srec"} -> Words \X Words [] FMT = "etek" -> Digits \X Words [] OTHER -> {0} \X Words
DigitImages == {<<[a |-> p, d |-> Pattern(n, 3)]>> : p \in AllPlaces, n \in {1, 3}} \cup {<<[a |-> <<0, 256>>, d |-> <<v>> \o d]>> : v \in Byte, d \in {<<>>, <<0>>, <<255, 1>>}}
GoodImages == IF Mode = "digits" THEN DigitImages ELSE {g \in Images : Len(g) = 1 \/ LeP(AddP(g[1].a, Len(g[1].d)), g[2].a)}
Rows == {1, 2, 3, 4, 16}
Opts == {[row |-> r, ty |-> ty, s5 |-> s5, start |-> st] : r \in Rows, ty \in (IF FMT = "srec" THEN 0..3 ELSE {0}), s5 \in (IF FMT = "srec" THEN BOOLEAN ELSE {FALSE}),
                                                     st \in (IF FMT = "srec" THEN {<<>>, <<0, 4660>>} ELSE {<<>>})}

------------------------------------------------------------------------------
VARIABLES rs, mut, wr
vars == <<rs, mut, wr>>
NoMut == <<>>
Init == rs = <<>> /\ mut = NoMut /\ wr = <<>>
AddRec == /\ Mode = "seq" /\ Len(rs) < Depth /\ UNCHANGED <<mut, wr>>
          /\ \E r \in Alphabet : rs' = Append(rs, r) /\ Emit(Text(rs'))
Mutate == /\ Mode = "mut" /\ rs = <<>> /\ UNCHANGED wr
          /\ \E r \in Victims : \E t \in Mutations(r.t) :
               /\ rs' = <<r>> /\ mut' = t
               /\ Emit(Prologue \o (IF r.k = "end" THEN <<Data(1, <<0, 16>>, D1)>> ELSE <<>>) \o <<t>> \o (IF r.k = "base" THEN <<IRec(0, <<0, 16>>, D1)>> ELSE <<>>) \o (IF r.k = "end" THEN <<>> ELSE Epilogue))
\* mode "bytes": every byte value at every place of a short file
ByteRec(v, i) == IF FMT \in {"titxt", "ash", "cosmac"} THEN R("more", None, <<v>> \o Zeros(i), IF FMT = "cosmac" THEN H(<<v>> \o Zeros(i)) ELSE Spaced(<<v>> \o Zeros(i)))
                 ELSE R("data", <<0, 256 + i>>, Rep(7, i) \o <<v>>, Data(1, <<0, 256 + i>>, Rep(7, i) \o <<v>>))
EveryByte == /\ Mode = "bytes" /\ rs = <<>> /\ UNCHANGED <<mut, wr>>
             /\ \E v \in Byte, i \in 0..2, j \in 0..1 : rs' = (IF j = 0 THEN <<ByteRec(v, i)>> ELSE IF ByteRec(v, i).k = "more" THEN <<ByteRec(5, 1), ByteRec(v, i), ByteRec(6, 1)>> ELSE <<ByteRec(v, i), R("data", <<0, 1>>, <<v, v>>, Data(1, <<0, 1>>, <<v, v>>))>>)
             /\ Emit(Text(rs'))
Lowered == /\ Mode = "seq" /\ Len(rs) = 1 /\ mut = NoMut /\ FMT # "fpc" /\ UNCHANGED <<rs, wr>>
           /\ mut' = Lower(rs[1].t) \o <<13>> /\ Emit(Prologue \o <<mut'>> \o Epilogue)
ChooseWrite == /\ Mode \in {"write", "digits"} /\ wr = <<>> /\ UNCHANGED <<rs, mut>>
               /\ \E g \in GoodImages, o \in Opts :
                    /\ Mode = "digits" => (o.row = 2 /\ ~o.s5 /\ (o.ty = 0 \/ o.ty = 3) /\ o.start = <<>>)
                    /\ wr' = <<g, o>> /\ PrintT(ToJson([fmt |-> FMT, img |-> g, opts |-> o]))
Next == AddRec \/ EveryByte \/ Mutate \/ Lowered \/ ChooseWrite
Spec == Init /\ [][Next]_vars
\* the mutation is part of the state; the writer's choice too

------------------------------------------------------------------------------
(* theorems *)
ReadsAsMemory ==
  (Mode \in {"seq", "bytes"} /\ mut = NoMut) =>
    LET m == MemOf(rs)  r == Read(FMT, Text(rs)) IN
    IF NoClash(m) /\ (\A i \in 1..Len(m) : m[i][1][1] < 65536) THEN
         \/ r.st = "unknown" /\ FMT = "titxt"
         \/ /\ r.st = "ok" /\ Rng(Cells(r.img)) = Rng(m) /\ Len(Cells(r.img)) = Len(m)
            /\ \A i \in 1..(Len(r.img) - 1) : LtP(AddP(r.img[i].a, Len(r.img[i].d)), r.img[i + 1].a)
    ELSE r.st = "unknown"
CaseInsensitive == (Mode = "seq" /\ mut # NoMut) => LET x == Line(FMT, mut)  y == Line(FMT, rs[1].t) IN x.k = y.k /\ x.a = y.a /\ x.d = y.d
\* base-85 groups and the addresses of emon52 records aren't protected that well
DigitErrorsCaught ==
  (Mode = "mut" /\ mut # NoMut /\ FMT # "fpc" /\ mut \in Subs(rs[1].t) /\ ~(FMT = "emon52" /\ Drop(mut, 8) = Drop(rs[1].t, 8) /\ Take(mut, 3) = Take(rs[1].t, 3))) => Line(FMT, mut).k \notin {"data", "base", "end", "count", "start"}

(* a straightforward writer: what it writes is accepted and read back *)
RECURSIVE RowsOf(_, _, _)
RowsOf(a, d, row) ==
  IF d = <<>> THEN <<>>
  ELSE LET n == Min(Min(row, Len(d)), IF FMT = "ihex" THEN 65536 - a[2] ELSE Len(d))
       IN <<[a |-> a, d |-> Take(d, n)]>> \o RowsOf(AddP(a, n), Drop(d, n), row)
Total(img) == Sum([i \in 1..Len(img) |-> Sum(img[i].d)])
Hex4(a) == H(AB(a))
Canonical(img, o) ==
  LET rows == Flatten([i \in 1..Len(img) |-> RowsOf(img[i].a, img[i].d, o.row)])
      ty == IF o.ty # 0 THEN o.ty ELSE AutoType(LastP(img[Len(img)]))
      nxt == <<0, AddP(LastP(img[Len(img)]), 1)[2]>>
      sep(d) == Spaced(d)
      line(r) == CASE FMT = "ihex" -> <<IRec(4, None, W16(r.a[1])), IRec(0, <<0, r.a[2]>>, r.d)>>
                   [] FMT = "titxt" -> <<<<64>> \o Hex4(r.a), sep(r.d)>>
                   [] FMT = "ash" -> <<<<36, 65>> \o Hex4(r.a) \o <<44>>, sep(r.d)>>
                   [] OTHER -> <<Data(ty, r.a, r.d)>>
      tail == CASE FMT = "sig" -> <<<<58>> \o Hex4(nxt) \o <<48, 48>>>>
                [] FMT = "tek" -> <<<<47>> \o H(AB(nxt) \o <<0, NibbleSum(AB(nxt))>>)>>
                [] FMT = "ash" -> <<<<3, 36, 36>> \o H(W16(Total(img))) \o <<44>>>>
                [] FMT = "srec" -> (IF o.s5 THEN <<SRec(52 + ty, <<0, Len(rows)>>, <<>>)>> ELSE <<>>) \o (IF o.start # <<>> THEN <<SRec(10 - ty, o.start, <<>>)>> ELSE <<>>)
                [] OTHER -> Epilogue
  IN Prologue \o Flatten([i \in 1..Len(rows) |-> line(rows[i])]) \o tail
WriterExists ==
  (Mode \in {"write", "digits"} /\ wr # <<>>) =>
    LET img == wr[1]  o == wr[2] @@ [lens |-> [i \in 1..Len(wr[1]) |-> Len(wr[1][i].d)]] IN
    WriteFaults(FMT, img, o) = {} =>
      LET f == Canonical(img, o) IN WriteClause(FMT, img, o, f, <<>>, <<>>) = "" /\ Read(FMT, f) = [st |-> "ok", img |-> Denotes(img)]
=============================================================================
