------------------------------ MODULE ToolTrace ------------------------------
(* What the command line tools print and write, judged by what the files given *)
(* to them say (HexFormats, ElfFormat, HexDump).                               *)
EXTENDS HexFormats, ElfNames, Json, IOUtils

E == INSTANCE ElfFormat
D == INSTANCE HexDump

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>

-----------------------------------------------------------------------------
(* oj-hex-info                                                                *)
ShfChunks(bl) == [k \in 1..Len(bl) |-> [a |-> bl[k].a, d |-> HexPairs(bl[k].t)]]
ShfGood(b) == AllHex(b.t) /\ b.len * b.ws * 2 = Len(b.t) /\ b.sha
Nibs(n) == <<n \div 4096, (n \div 256) % 16, (n \div 16) % 16, n % 16>>
Nibbles(p) == Nibs(p[1]) \o Nibs(p[2])

HexSays(t) == IF t.fmt = "shf" THEN [st |-> IF \A k \in 1..Len(t.blocks) : ShfGood(t.blocks[k]) THEN "ok" ELSE "unknown", img |-> Denotes(ShfChunks(t.blocks))]
              ELSE Read(t.fmt, t.lines)
HexClause(t) ==
  LET r == HexSays(t)  o == t.out IN
  IF ~t.there THEN (IF t.code # 0 /\ o.rows = <<>> /\ o.total = -1 THEN "" ELSE "no complaint about a missing file")
  ELSE IF r.st = "unknown" THEN ""
  ELSE IF r.st = "bad" THEN (IF t.code = 0 THEN "corrupted file shown" ELSE "")
  ELSE IF t.code # 0 THEN "refused: " \o t.x
  ELSE IF o.stray THEN "lines of no known form"
  ELSE IF o.rows # [k \in 1..Len(r.img) |-> [i |-> k - 1, a |-> Nibbles(r.img[k].a), n |-> Len(r.img[k].d)]] THEN "table of sections"
  ELSE IF o.total # Sum([k \in 1..Len(r.img) |-> Len(r.img[k].d)]) THEN "total number of bytes"
  ELSE IF Len(o.dumps) # (IF t.dump THEN Len(r.img) ELSE 0) THEN "dump missing or superfluous"
  ELSE IF \E k \in 1..Len(o.dumps) : ~D!Denotes(o.dumps[k], Nibbles(r.img[k].a), 32, r.img[k].d) THEN "dump"
  ELSE ""

-----------------------------------------------------------------------------
(* oj-elf-extract                                                             *)
\* addresses as pairs; beyond 2^39 they only matter as too large
Pair(v) == IF \E k \in 1..3 : v[k] # 0 THEN <<16777216, 0>> ELSE <<v[4] * 65536 + v[5] * 256 + v[6], v[7] * 256 + v[8]>>
Huge(q) == \E k \in 1..Len(q) : Pair(q[k].sh_addr)[1] >= 8388608
ExtractClause(t, secs) ==
  LET p == E!Picked(secs, t.a)
      img == [k \in 1..Len(E!ImageOf(secs, t.a)) |-> [a |-> Pair(E!ImageOf(secs, t.a)[k].a), d |-> E!ImageOf(secs, t.a)[k].d]]
      opts == [row |-> 16, ty |-> 0, s5 |-> FALSE, start |-> <<>>, lens |-> [k \in 1..Len(img) |-> Len(img[k].d)]]
      o == t.out
      faults == IF img = <<>> \/ t.fmt = "shf" THEN {} ELSE WriteFaults(t.fmt, img, opts)
  IN
  IF ~E!Disjoint(p) \/ (t.fmt = "shf" /\ Huge(p)) THEN ""
  ELSE IF faults # {} THEN (IF t.code = 0 THEN "not refused: address out of range" ELSE "")
  ELSE IF t.code # 0 THEN "refused: " \o t.x
  ELSE IF o.stray THEN "lines of no known form"
  ELSE IF o.rows # [k \in 1..Len(p) |-> [name |-> p[k].name, a |-> p[k].sh_addr, n |-> Len(p[k].image)]] THEN "table of sections"
  ELSE IF img = <<>> THEN (IF t.there \/ o.total # -1 THEN "file written though there is nothing to write" ELSE "")
  ELSE IF ~t.there THEN "no file written"
  ELSE IF o.total # Sum(opts.lens) THEN "total number of bytes"
  ELSE IF t.fmt = "shf" THEN
         IF \E k \in 1..Len(t.blocks) : ~ShfGood(t.blocks[k]) THEN "inconsistent block"
         ELSE IF Denotes(ShfChunks(t.blocks)) # Denotes(img) THEN "the file denotes another image" ELSE ""
  ELSE WriteClause(t.fmt, img, opts, t.lines, <<>>, <<>>)

-----------------------------------------------------------------------------
(* oj-elf-syms                                                                *)
Bits(v, n) == E!HasBits(v, E!OfNat(n))
IsRow(y, r) == /\ r.name = y.name /\ r.value = y.st_value /\ r.size = y.st_size
               /\ Shows(Bindings, y.st_bind, r.bind) /\ Shows(SymbolTypes, y.st_type, r.type)
               /\ r.a = Bits(y.access, 2) /\ r.w = Bits(y.access, 1) /\ r.x = Bits(y.access, 4)
LexL(x, y) == E!LexLeq(x, y)
SymsClause(t, syms) ==
  LET want == {k \in 1..Len(syms) : E!SymbolWanted(syms[k], t.a)}
      of(s) == {k \in want : syms[k].section = s}
      g == t.out.groups
      RowLeq(x, y) == IF t.a.byvalue THEN E!LeqV(x.value, y.value) ELSE E!LexLeq(x.name, y.name)
  IN
  IF t.code # 0 THEN "refused: " \o t.x
  ELSE IF t.out.stray THEN "lines of no known form"
  ELSE IF {g[k].key : k \in 1..Len(g)} # {syms[k].section : k \in want} \/ Len(g) # Cardinality({syms[k].section : k \in want}) THEN "groups of symbols"
  ELSE IF ~E!Ordered([k \in 1..Len(g) |-> g[k].key], LexL) THEN "order of the groups"
  ELSE IF \E k \in 1..Len(g) : \/ Len(g[k].rows) # Cardinality(of(g[k].key))
                               \/ \E j \in 1..Len(g[k].rows) : LET r == g[k].rows[j] IN
                                    Cardinality({m \in 1..Len(g[k].rows) : g[k].rows[m] = r}) # Cardinality({m \in of(g[k].key) : IsRow(syms[m], r)}) THEN "symbols"
  ELSE IF \E k \in 1..Len(g) : ~E!Ordered(g[k].rows, RowLeq) THEN "order of the symbols"
  ELSE ""

-----------------------------------------------------------------------------
(* oj-elf-info                                                                *)
AvrMachs == {1, 2, 3, 4, 5, 6, 25, 31, 35, 51, 100, 101, 102, 103, 104, 105, 106, 107}
ARM == E!OfNat(40)
AVR == E!OfNat(83)
AvrOk(h, m) == LET n == h.e_flags[8] % 128 IN
  /\ m.relax = (h.e_flags[8] >= 128)
  /\ IF n \in AvrMachs THEN m.mach = n ELSE m.mach = -1
OnArm(table, more, h) == IF h.e_machine = ARM THEN more @@ table ELSE table
ProcSpecific(v) == Low(v)[1] = 112 /\ Low(v)[2] = 0 /\ Low(v)[3] = 0
SecRow(s, r, h) == /\ r.name = s.name /\ r.a = s.sh_addr /\ r.off = s.sh_offset /\ r.size = s.sh_size /\ r.align = s.sh_addralign
                   /\ (ProcSpecific(s.sh_type) /\ h.e_machine # ARM) \/ Shows(OnArm(SectionTypes, ArmSectionTypes, h), s.sh_type, r.type)
SegRow(g, r, h) == /\ r.off = g.p_offset /\ r.va = g.p_vaddr /\ r.pa = g.p_paddr /\ r.fs = g.p_filesz /\ r.ms = g.p_memsz /\ r.align = g.p_align
                   /\ r.r = Bits(g.p_flags, 4) /\ r.w = Bits(g.p_flags, 2) /\ r.x = Bits(g.p_flags, 1)
                   /\ (ProcSpecific(g.p_type) /\ h.e_machine # ARM) \/ Shows(OnArm(SegmentTypes, ArmSegmentTypes, h), g.p_type, r.type)
DotDebug == <<46, 100, 101, 98, 117, 103>>
Starts(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InfoClause(t, f, secs) ==
  LET h == E!Header(f)  o == t.out  segs == E!Segments(f)  notes == E!Notes(f, secs)
      of(q, s) == SelectSeq(q, LAMBDA n : n.section = s)
  IN
  IF t.code # 0 THEN "refused: " \o t.x
  ELSE IF o.stray THEN "lines of no known form"
  ELSE IF o.cls # (IF f[5] = 1 THEN "32-bit objects" ELSE "64-bit objects") THEN "class"
  ELSE IF o.data # (IF f[6] = 1 THEN "Little-Endian" ELSE "Big-Endian") THEN "byte order"
  ELSE IF ~Shows(FileTypes, h.e_type, o.type) THEN "type of the file"
  ELSE IF ~Shows(OsAbis, h.ei_osabi, o.abi) \/ o.abiver # h.ei_abiversion THEN "OS or ABI"
  ELSE IF ~Shows(Machines, h.e_machine, o.machine) THEN "machine"
  ELSE IF h.e_machine = AVR /\ ~AvrOk(h, o.avr) THEN "AVR architecture"
  ELSE IF Len(o.secs) # Len(secs) \/ \E k \in 1..Len(secs) : ~SecRow(secs[k], o.secs[k], h) THEN "table of sections"
  ELSE IF Len(o.segs) # Len(segs) \/ \E k \in 1..Len(segs) : ~SegRow(segs[k], o.segs[k], h) THEN "table of segments"
  \* what is said about debug information may follow
  ELSE IF (IF \E k \in 1..Len(secs) : Starts(DotDebug, secs[k].name) THEN ~Starts(E!Comment(secs), o.comment) ELSE o.comment # E!Comment(secs)) THEN "comment"
  ELSE IF Len(o.notes) # Len(notes) \/ \E k \in 1..Len(notes) : of(o.notes, notes[k].section) # of(notes, notes[k].section) THEN "notes"
  ELSE ""

-----------------------------------------------------------------------------
(* oj-elf-arm-attrs                                                           *)
ArmSection(secs) == LET q == SelectSeq(secs, LAMBDA s : s.name = E!ArmName) IN IF q = <<>> THEN <<>> ELSE q[1].image
\* tag 70 meant Tag_MPextension_use once
AttrRow(a, r) == /\ r.s = a.s /\ r.n = a.n
                 /\ IF a.tag = 70 THEN TRUE ELSE IF a.tag \in DOMAIN ArmTags THEN r.name = ArmTags[a.tag] ELSE \A k \in DOMAIN ArmTags : r.name # ArmTags[k]
ArmClause(t, f, secs) ==
  LET h == E!Header(f)  d == ArmSection(secs)
      a == IF d = <<>> THEN <<>> ELSE E!Arm(d, f[6])
      g == t.out.groups
      of(v) == E!ArmOf(a, v)
  IN
  IF h.e_machine \notin {ARM, E!OfNat(183)} THEN (IF t.code # 0 /\ g = <<>> THEN "" ELSE "attributes of another architecture")
  ELSE IF t.code # 0 THEN "refused: " \o t.x
  ELSE IF t.out.stray THEN "lines of no known form"
  ELSE IF {g[k].vendor : k \in 1..Len(g)} # {a[k].vendor : k \in 1..Len(a)} \/ Len(g) # Cardinality({a[k].vendor : k \in 1..Len(a)}) THEN "vendors"
  ELSE IF \E k \in 1..Len(g) : Len(g[k].rows) # Len(of(g[k].vendor)) \/ \E j \in 1..Len(g[k].rows) : ~AttrRow(of(g[k].vendor)[j], g[k].rows[j]) THEN "attributes"
  ELSE ""

-----------------------------------------------------------------------------
\* a file that is none of the kind: every tool says so by its status, prints no tables and writes no file
GarbageClause(t) == IF t.code = 0 THEN "no ELF file, yet the tool succeeds" ELSE IF t.there THEN "file written" ELSE ""

Clause(t, f) ==
  IF t.k = "hexinfo" THEN HexClause(t)
  ELSE IF ~t.valid THEN GarbageClause(t)
  ELSE LET secs == E!Sections(f) IN
  CASE t.k = "extract" -> ExtractClause(t, secs)
    [] t.k = "syms" -> SymsClause(t, E!Symbols(f, secs))
    [] t.k = "info" -> InfoClause(t, f, secs)
    [] t.k = "arm" -> ArmClause(t, f, secs)

Init == c \in 1..Len(Trace) /\ i = 0
Next == /\ i < Len(Trace[c].steps)
        /\ i' = i + 1 /\ c' = c
        /\ LET t == Trace[c].steps[i + 1]  b == Clause(t, Trace[c].file) IN
           b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> i + 1, key |-> t.k \o ": " \o b]))
Spec == Init /\ [][Next]_vars
=============================================================================
