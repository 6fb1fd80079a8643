----------------------------- MODULE ElfFormat -----------------------------
(* What an ELF file says (gABI), as a function of its bytes: header, section   *)
(* and program headers, symbols, notes, comment, ARM attributes, loadable      *)
(* image; and what the queries of objutils.elf mean.                           *)
(* Numbers of the file are sequences of eight bytes, most significant first.   *)
EXTENDS Bytes, FiniteSets, TLC

V8(m) == PadTo(m, 8)
Small(v) == \A i \in 1..5 : v[i] = 0
Nat3(v) == v[6] * 65536 + v[7] * 256 + v[8]           \* of a small value
OfNat(n) == <<0, 0, 0, 0, (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE AddR(_, _, _)
\* v + n, n < 2^23; the carry runs from the right
AddR(v, i, c) == IF i = 0 \/ c = 0 THEN v ELSE LET t == v[i] + c IN AddR([v EXCEPT ![i] = t % 256], i - 1, t \div 256)
AddV(v, n) == AddR(v, 8, n)
LeqV(a, b) == LessEqM(a, b)
AndV(a, b) == [i \in 1..8 |-> BitAnd(a[i], b[i])]
HasBits(v, m) == AndV(v, m) = m

Get(f, e, off, n) == LET s == Slice(f, off, n) IN V8(IF e = 1 THEN Rev(s) ELSE s)
GetN(f, e, off, n) == Nat3(Get(f, e, off, n))

RECURSIVE CLen(_, _, _)
CLen(s, off, n) == IF off + n >= Len(s) \/ s[off + n + 1] = 0 THEN n ELSE CLen(s, off, n + 1)
CStr(s, off) == Slice(s, off, CLen(s, off, 0))

-----------------------------------------------------------------------------
Cls(f) == f[5]
End(f) == f[6]
Header(f) ==
  LET e == f[6]  w == IF f[5] = 2 THEN 8 ELSE 4
      g(off, n) == Get(f, e, off, n)
      a == 24 + 3 * w                    \* offset of e_flags
  IN [ei_class |-> OfNat(f[5]), ei_data |-> OfNat(f[6]), ei_version |-> OfNat(f[7]), ei_osabi |-> OfNat(f[8]), ei_abiversion |-> OfNat(f[9]),
      e_type |-> g(16, 2), e_machine |-> g(18, 2), e_version |-> g(20, 4), e_entry |-> g(24, w), e_phoff |-> g(24 + w, w), e_shoff |-> g(24 + 2 * w, w),
      e_flags |-> g(a, 4), e_ehsize |-> g(a + 4, 2), e_phentsize |-> g(a + 6, 2), e_phnum |-> g(a + 8, 2), e_shentsize |-> g(a + 10, 2),
      e_shnum |-> g(a + 12, 2), e_shstrndx |-> g(a + 14, 2)]

\* Long files: a stretch of zeros nothing refers to may be left out of f; gap is <<where, length>>
NoGap == <<0, 0>>
Off(v, gap) == LET n == Nat3(v) IN IF n >= gap[1] + gap[2] THEN n - gap[2] ELSE n

\* one section header, the index counts from 0
RawSection(f, h, i, gap) ==
  LET e == f[6]  w == IF f[5] = 2 THEN 8 ELSE 4
      b == Off(h.e_shoff, gap) + i * (IF w = 8 THEN 64 ELSE 40)
      g(off, n) == Get(f, e, b + off, n)
  IN [index |-> i, sh_name |-> g(0, 4), sh_type |-> g(4, 4), sh_flags |-> g(8, w), sh_addr |-> g(8 + w, w), sh_offset |-> g(8 + 2 * w, w), sh_size |-> g(8 + 3 * w, w),
      sh_link |-> g(8 + 4 * w, 4), sh_info |-> g(12 + 4 * w, 4), sh_addralign |-> g(16 + 4 * w, w), sh_entsize |-> g(16 + 5 * w, w)]

Nobits(s) == s.sh_type \in {OfNat(0), OfNat(8)}
Content(f, s, gap) == IF Nobits(s) \/ IsZero(s.sh_size) THEN <<>> ELSE Slice(f, Off(s.sh_offset, gap), Nat3(s.sh_size))

SectionsG(f, gap) ==
  LET h == Header(f)  n == Nat3(h.e_shnum)
      raw == [i \in 1..n |-> RawSection(f, h, i - 1, gap)]
      k == Nat3(h.e_shstrndx) + 1
      str == IF k <= n THEN Content(f, raw[k], gap) ELSE <<>>
  IN [i \in 1..n |-> raw[i] @@ [name |-> CStr(str, Nat3(raw[i].sh_name)), image |-> Content(f, raw[i], gap), none |-> Nobits(raw[i]) \/ IsZero(raw[i].sh_size)]]
Sections(f) == SectionsG(f, NoGap)

SegmentsG(f, gap) ==
  LET h == Header(f)  e == f[6]  n == Nat3(h.e_phnum)
      g(i, off, w) == Get(f, e, Off(h.e_phoff, gap) + (i - 1) * (IF f[5] = 2 THEN 56 ELSE 32) + off, w)
  IN [i \in 1..n |->
       IF f[5] = 2 THEN [p_type |-> g(i, 0, 4), p_flags |-> g(i, 4, 4), p_offset |-> g(i, 8, 8), p_vaddr |-> g(i, 16, 8), p_paddr |-> g(i, 24, 8),
                         p_filesz |-> g(i, 32, 8), p_memsz |-> g(i, 40, 8), p_align |-> g(i, 48, 8)]
       ELSE [p_type |-> g(i, 0, 4), p_offset |-> g(i, 4, 4), p_vaddr |-> g(i, 8, 4), p_paddr |-> g(i, 12, 4),
             p_filesz |-> g(i, 16, 4), p_memsz |-> g(i, 20, 4), p_flags |-> g(i, 24, 4), p_align |-> g(i, 28, 4)]]

Segments(f) == SegmentsG(f, NoGap)

-----------------------------------------------------------------------------
(* symbols, in the order of the symbol tables                                 *)
Dec == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<Dec[n + 1]>> ELSE Append(Decimal(n \div 10), Dec[(n % 10) + 1])
UNDEF == <<83, 72, 78, 95, 85, 78, 68, 69, 70>>       \* "SHN_UNDEF"
ABS   == <<83, 72, 78, 95, 65, 66, 83>>               \* "SHN_ABS"
COMMON == <<83, 72, 78, 95, 67, 79, 77, 77, 79, 78>>  \* "SHN_COMMON"

Symbol(f, secs, str, tab, off) ==
  LET e == f[6]  l == f[5] = 2
      g(o, n) == Get(tab, e, off + o, n)
      info == IF l THEN tab[off + 5] ELSE tab[off + 13]
      other == IF l THEN tab[off + 6] ELSE tab[off + 14]
      shn == g(IF l THEN 6 ELSE 14, 2)
      n == Nat3(shn)
      home == n # 0 /\ n < 65280 /\ n < Len(secs)
      nm == g(0, 4)
  IN [st_name |-> nm, st_value |-> IF l THEN g(8, 8) ELSE g(4, 4), st_size |-> IF l THEN g(16, 8) ELSE g(8, 4),
      st_bind |-> OfNat(info \div 16), st_type |-> OfNat(info % 16), st_other |-> OfNat(other), st_shndx |-> shn,
      name |-> CStr(str, Nat3(nm)),
      section |-> CASE n = 0 -> UNDEF [] n = 65521 -> ABS [] n = 65522 -> COMMON [] home -> secs[n + 1].name [] OTHER -> Decimal(n),
      access |-> IF home THEN secs[n + 1].sh_flags ELSE OfNat(0)]

IsSymtab(s) == s.sh_type \in {OfNat(2), OfNat(11)}
Symbols(f, secs) ==
  LET tabs == SelectSeq(secs, IsSymtab)
      w == IF f[5] = 2 THEN 24 ELSE 16
      of(t) == LET k == Nat3(t.sh_link) + 1
                   str == IF Small(t.sh_link) /\ k <= Len(secs) THEN secs[k].image ELSE <<>>
               IN [i \in 1..(Len(t.image) \div w) |-> Symbol(f, secs, str, t.image, (i - 1) * w)]
  IN Flatten([i \in 1..Len(tabs) |-> of(tabs[i])])

-----------------------------------------------------------------------------
(* notes, comment, ARM attributes                                             *)
Up4(n) == ((n + 3) \div 4) * 4
RECURSIVE NotesR(_, _, _)
NotesR(d, e, off) ==
  IF off + 12 > Len(d) THEN <<>>
  ELSE LET nl == GetN(d, e, off, 4)  dl == GetN(d, e, off + 4, 4)  q == off + 12 + Up4(nl)
       IN <<[type |-> Get(d, e, off + 8, 4), name |-> CStr(Slice(d, off + 12, nl), 0), desc |-> Slice(d, q, dl)]>> \o NotesR(d, e, off + Up4(12 + Up4(nl) + dl))
\* per section with notes, in the order of the file
Notes(f, secs) == LET q == SelectSeq(secs, LAMBDA s : s.sh_type = OfNat(7) /\ ~s.none)
                  IN Flatten([i \in 1..Len(q) |-> LET n == NotesR(q[i].image, f[6], 0) IN [k \in 1..Len(n) |-> n[k] @@ [section |-> q[i].name]]])

RECURSIVE Pieces(_, _)
\* strings separated by NULs, empty ones dropped, joined by newlines
Pieces(d, off) == IF off >= Len(d) THEN <<>>
                  ELSE LET s == CStr(d, off)  r == Pieces(d, off + Len(s) + 1)
                       IN IF s = <<>> THEN r ELSE IF r = <<>> THEN s ELSE s \o <<10>> \o r
CommentName == <<46, 99, 111, 109, 109, 101, 110, 116>>
\* .comment sections: the first one that says something; <<>>: none
Comment(secs) == LET q == SelectSeq(secs, LAMBDA s : s.name = CommentName /\ ~s.none /\ s.sh_type # OfNat(7) /\ ~IsSymtab(s) /\ Pieces(s.image, 0) # <<>>)
                 IN IF q = <<>> THEN <<>> ELSE Pieces(q[1].image, 0)

RECURSIVE UlebR(_, _)
UlebLen(d, off) == UlebR(d, off)
UlebR(d, off) == IF d[off + 1] < 128 THEN 1 ELSE 1 + UlebR(d, off + 1)
\* v * 128 + g on eight bytes
RECURSIVE MulR(_, _, _)
MulR(v, i, c) == IF i = 0 THEN v ELSE LET t == v[i] * 128 + c IN MulR([v EXCEPT ![i] = t % 256], i - 1, t \div 256)
RECURSIVE UlebV(_, _, _)
UlebV(d, off, n) == IF n = 0 THEN OfNat(0) ELSE MulR(UlebV(d, off + 1, n - 1), 8, d[off + 1] % 128)
Uleb(d, off) == UlebV(d, off, UlebLen(d, off))

\* parameters: strings for these tags and for unknown odd ones, numbers otherwise
ArmStr == {4, 5, 65, 67}
ArmIsStr(t) == IF t \in ArmStr THEN TRUE ELSE IF t \in (6..31) \cup {34, 36, 38, 42, 44, 64, 66, 68, 70} THEN FALSE ELSE t % 2 = 1
RECURSIVE ArmR(_, _)
ArmR(d, off) ==
  IF off >= Len(d) THEN <<>>
  ELSE LET n == UlebLen(d, off)  t == Nat3(Uleb(d, off)) IN
       IF t = 32 THEN LET m == UlebLen(d, off + n)  s == CStr(d, off + n + m)      \* compatibility: flag and vendor
                      IN <<[tag |-> t, s |-> s, n |-> Uleb(d, off + n)]>> \o ArmR(d, off + n + m + Len(s) + 1)
       ELSE IF ArmIsStr(t) THEN LET s == CStr(d, off + n) IN <<[tag |-> t, s |-> s, n |-> <<>>]>> \o ArmR(d, off + n + Len(s) + 1)
       ELSE LET m == UlebLen(d, off + n) IN <<[tag |-> t, s |-> <<>>, n |-> Uleb(d, off + n)]>> \o ArmR(d, off + n + m)
RECURSIVE ArmSecs(_, _, _)
\* one entry per vendor section: name and attributes of the file
ArmSecs(d, e, off) ==
  IF off >= Len(d) THEN <<>>
  ELSE LET n == GetN(d, e, off, 4)
           v == CStr(d, off + 4)
           q == off + 4 + Len(v) + 1          \* the tag of the first scope
           m == GetN(d, e, q + 1, 4)
       IN <<[vendor |-> v, attrs |-> ArmR(Slice(d, q + 5, m - 5), 0)]>> \o ArmSecs(d, e, off + n)
Arm(d, e) == ArmSecs(d, e, 1)
\* sections of the same vendor are one list
ArmOf(a, v) == LET q == SelectSeq(a, LAMBDA r : r.vendor = v) IN Flatten([i \in 1..Len(q) |-> q[i].attrs])
ArmName == <<46, 65, 82, 77, 46, 97, 116, 116, 114, 105, 98, 117, 116, 101, 115>>

-----------------------------------------------------------------------------
(* name patterns: alternatives of sequences of atoms, matched from the start   *)
RECURSIVE Matches(_, _)
Matches(p, s) ==
  IF p = <<>> THEN TRUE
  ELSE CASE p[1].k = "end" -> s = <<>>
         [] p[1].k = "any" -> s # <<>> /\ Matches(Tail(p), Tail(s))
         [] p[1].k = "star" -> Matches(Tail(p), s) \/ (s # <<>> /\ Matches(p, Tail(s)))
         [] OTHER -> s # <<>> /\ s[1] = p[1].c /\ Matches(Tail(p), Tail(s))
Match(pat, s) == \E i \in 1..Len(pat) : Matches(pat[i], s)

RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))

InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
Ordered(q, Leq(_, _)) == \A i \in 1..(Len(q) - 1) : Leq(q[i], q[i + 1])
\* q lists every index satisfying P exactly once
Lists(q, n, P(_)) == /\ \A i \in 1..Len(q) : q[i] \in 1..n /\ P(q[i])
                     /\ \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
                     /\ Cardinality({i \in 1..n : P(i)}) = Len(q)

\* a: arguments; res: positions (1..) in the table
SectionsFetched(secs, a, res) ==
  LET P(i) == (a.sections = <<>> \/ InSeq(secs[i].name, a.sections)) /\ (a.pattern = <<>> \/ Match(a.pattern, secs[i].name))
      L(x, y) == IF a.byaddr THEN LeqV(secs[x].sh_addr, secs[y].sh_addr) ELSE LexLeq(secs[x].name, secs[y].name)
  IN Lists(res, Len(secs), P) /\ Ordered(res, L)

FlagV(c) == CASE c = "a" -> OfNat(2) [] c = "w" -> OfNat(1) [] c = "x" -> OfNat(4)
BindV(c) == CASE c = "l" -> OfNat(0) [] c = "g" -> OfNat(1) [] c = "w" -> OfNat(2)
TypeV(c) == CASE c = "notype" -> OfNat(0) [] c = "object" -> OfNat(1) [] c = "func" -> OfNat(2) [] c = "section" -> OfNat(3) [] c = "file" -> OfNat(4)
              [] c = "common" -> OfNat(5) [] c = "tls" -> OfNat(6)
SymbolWanted(y, a) ==
  /\ a.sections = <<>> \/ InSeq(y.section, a.sections)
  /\ a.pattern = <<>> \/ Match(a.pattern, y.name)
  /\ a.access = <<>> \/ \E i \in 1..Len(a.access) : HasBits(y.access, FlagV(a.access[i]))
  /\ a.bindings = <<>> \/ \E i \in 1..Len(a.bindings) : y.st_bind = BindV(a.bindings[i])
  /\ a.types = <<>> \/ \E i \in 1..Len(a.types) : y.st_type = TypeV(a.types[i])
\* res: groups [key, list of positions]
SymbolsFetched(syms, a, res) ==
  LET all == Flatten([i \in 1..Len(res) |-> res[i].pos])
      P(i) == SymbolWanted(syms[i], a)
      L(x, y) == IF a.byvalue THEN LeqV(syms[x].st_value, syms[y].st_value) ELSE LexLeq(syms[x].name, syms[y].name)
  IN /\ Lists(all, Len(syms), P)
     /\ \A i \in 1..Len(res) : res[i].pos # <<>> /\ Ordered(res[i].pos, L) /\ \A k \in 1..Len(res[i].pos) : syms[res[i].pos[k]].section = res[i].key
     /\ \A i, j \in 1..Len(res) : i # j => res[i].key # res[j].key
     /\ \A i \in 1..(Len(res) - 1) : LexLeq(res[i].key, res[i + 1].key)
\* one of those with the name, 0: there is none
FirstOf(n, P(_), res) == IF {i \in 1..n : P(i)} = {} THEN res = 0 ELSE res \in {i \in 1..n : P(i)}

-----------------------------------------------------------------------------
(* which sections a segment contains (the rule of binutils)                    *)
RECURSIVE Plus(_, _, _, _)
Plus(a, b, i, c) == IF i = 0 THEN <<c>> ELSE LET t == a[i] + b[i] + c IN Append(Plus(a, b, i - 1, t \div 256), t % 256)
Sum9(a, b) == Plus(a, b, 8, 0)
LessV(a, b) == ~LeqV(b, a)
\* a - b < c, for a >= b
Within(a, b, c) == ~LessEqM(Sum9(b, c), <<0>> \o a)
PType(g) == g.p_type
PtLoad == OfNat(1)
PtDynamic == OfNat(2)
PtPhdr == OfNat(6)
PtTls == OfNat(7)
PtRelro == <<0, 0, 0, 0, 100, 116, 229, 82>>
IsTls(s) == HasBits(s.sh_flags, OfNat(1024))
TbssSpecial(s, g) == IsTls(s) /\ s.sh_type = OfNat(8) /\ PType(g) # PtTls
SizeIn(s, g) == IF TbssSpecial(s, g) THEN OfNat(0) ELSE s.sh_size
\* the extent of `size` bytes from x on lies in that of n bytes from b on
Inside(x, size, b, n, strict) == LeqV(b, x) /\ (strict => Within(x, b, n)) /\ LessEqM(Sum9(x, size), Sum9(b, n))
InSegment(s, g, strict) ==
  LET alloc == HasBits(s.sh_flags, OfNat(2)) IN
  /\ IF IsTls(s) THEN PType(g) \in {PtTls, PtRelro, PtLoad} ELSE PType(g) \notin {PtTls, PtPhdr}
  /\ s.sh_type = OfNat(8) \/ Inside(s.sh_offset, SizeIn(s, g), g.p_offset, g.p_filesz, strict)
  /\ ~alloc \/ Inside(s.sh_addr, SizeIn(s, g), g.p_vaddr, g.p_memsz, strict)
  \* no empty sections at the borders of the dynamic segment
  /\ \/ PType(g) # PtDynamic \/ ~IsZero(s.sh_size) \/ IsZero(g.p_memsz)
     \/ /\ s.sh_type = OfNat(8) \/ (LessV(g.p_offset, s.sh_offset) /\ Within(s.sh_offset, g.p_offset, g.p_filesz))
        /\ ~alloc \/ (LessV(g.p_vaddr, s.sh_addr) /\ Within(s.sh_addr, g.p_vaddr, g.p_memsz))

-----------------------------------------------------------------------------
(* the loadable image                                                         *)
Loadable(s) == ~s.none /\ HasBits(s.sh_flags, OfNat(2))
Wanted(s, a) == Loadable(s) /\ (a.inc = <<>> \/ Match(a.inc, s.name)) /\ (a.exc = <<>> \/ ~Match(a.exc, s.name))
RECURSIVE SortR(_)
SortR(q) == IF Len(q) <= 1 THEN q
            ELSE LET p == q[1]
                     lo == SelectSeq(Tail(q), LAMBDA s : ~LeqV(p.sh_addr, s.sh_addr))
                     hi == SelectSeq(Tail(q), LAMBDA s : LeqV(p.sh_addr, s.sh_addr))
                 IN SortR(lo) \o <<p>> \o SortR(hi)
Picked(secs, a) == SortR(SelectSeq(secs, LAMBDA s : Wanted(s, a)))
\* no two of them share an address (and none runs over the end of the address space)
Disjoint(q) == /\ \A i \in 1..Len(q) : LeqV(q[i].sh_addr, AddV(q[i].sh_addr, Len(q[i].image)))
               /\ \A i \in 1..(Len(q) - 1) : LeqV(AddV(q[i].sh_addr, Len(q[i].image)), q[i + 1].sh_addr)
RECURSIVE JoinR(_)
JoinR(q) == IF Len(q) <= 1 THEN q
            ELSE LET x == q[1]  y == q[2] IN
                 IF AddV(x.a, Len(x.d)) = y.a THEN JoinR(<<[a |-> x.a, d |-> x.d \o y.d]>> \o SubSeq(q, 3, Len(q)))
                 ELSE <<x>> \o JoinR(Tail(q))
Chunks(q) == [i \in 1..Len(q) |-> [a |-> q[i].sh_addr, d |-> q[i].image]]
ImageOf(secs, a) == LET q == Chunks(Picked(secs, a)) IN IF a.join THEN JoinR(q) ELSE q
=============================================================================
