------------------------------ MODULE ElfTrace ------------------------------
(* ELF files opened and queried by objutils.elf, judged by ElfFormat.          *)
EXTENDS ElfFormat, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>

NotesOrdered(ns) == \A k \in 1..(Len(ns) - 1) : LexLeq(ns[k].section, ns[k + 1].section)
\* notes are reported by section name, those of a section in order
SameNotes(ns, want) ==
  LET names == {want[k].section : k \in 1..Len(want)}
      of(q, s) == SelectSeq(q, LAMBDA n : n.section = s)
  IN Len(ns) = Len(want) /\ NotesOrdered(ns) /\ \A s \in names : of(ns, s) = of(want, s)

ArmSection(secs) == LET q == SelectSeq(secs, LAMBDA s : s.name = ArmName) IN IF q = <<>> THEN <<>> ELSE q[1].image
SameArm(res, f, secs) ==
  LET d == ArmSection(secs)
      a == IF d = <<>> THEN <<>> ELSE Arm(d, f[6])
      vendors == {a[k].vendor : k \in 1..Len(a)}
  IN /\ {res[k].vendor : k \in 1..Len(res)} = vendors
     /\ \A k \in 1..Len(res) : res[k].attrs = ArmOf(a, res[k].vendor)

OpenClause(t, f, gap, secs, syms) ==
  LET o == t.snap IN
  CASE o.header # Header(f) -> "header"
    [] o.ident # Take(f, 16) -> "identification"
    [] o.segs # SegmentsG(f, gap) -> "program headers"
    [] [k \in 1..Len(o.secs) |-> o.secs[k]] # secs -> "sections"
    [] o.syms # syms -> "symbols"
    [] ~SameNotes(o.notes, Notes(f, secs)) -> "notes"
    [] o.comment # Comment(secs) -> "comment"
    [] ~SameArm(o.arm, f, secs) -> "ARM attributes"
    [] OTHER -> ""

SymPred(y, p) ==
  CASE p = "weak" -> y.st_bind = OfNat(2) [] p = "local" -> y.st_bind = OfNat(0) [] p = "global_" -> y.st_bind = OfNat(1)
    [] p = "hidden" -> (y.st_other[8] % 4) \in {1, 2}
    [] p = "undefined" -> y.st_shndx = OfNat(0) [] p = "absolute" -> y.st_shndx = OfNat(65521)
    [] p = "writeable" -> HasBits(y.access, OfNat(1)) [] p = "allocate" -> HasBits(y.access, OfNat(2)) [] p = "executeable" -> HasBits(y.access, OfNat(4))
SecPred(s, p) ==
  LET F(m) == HasBits(s.sh_flags, m) IN
  CASE p = "flag_writeable" -> F(OfNat(1)) [] p = "flag_alloc" -> F(OfNat(2)) [] p = "flag_executable" -> F(OfNat(4)) [] p = "flag_merge" -> F(OfNat(16))
    [] p = "flag_strings" -> F(OfNat(32)) [] p = "flag_info_link" -> F(OfNat(64)) [] p = "flag_link_order" -> F(OfNat(128))
    [] p = "flag_os_nonconforming" -> F(OfNat(256)) [] p = "flag_group" -> F(OfNat(512)) [] p = "flag_tls" -> F(OfNat(1024))
    [] p = "has_content" -> ~Nobits(s) /\ ~IsZero(s.sh_size)
    [] p = "is_debug" -> Len(s.name) >= 6 /\ Take(s.name, 6) = <<46, 100, 101, 98, 117, 103>>
PredClause(t, q, P(_, _)) ==
  \* res: [name, positions of the rows satisfying it in memory, and in a query]
  IF \E k \in 1..Len(t.res) : {t.res[k].mem[j] : j \in 1..Len(t.res[k].mem)} # {x \in 1..Len(q) : P(q[x], t.res[k].p)}
  THEN "attribute " \o t.res[CHOOSE k \in 1..Len(t.res) : {t.res[k].mem[j] : j \in 1..Len(t.res[k].mem)} # {x \in 1..Len(q) : P(q[x], t.res[k].p)}].p
  ELSE IF \E k \in 1..Len(t.res) : t.res[k].hasq /\ {t.res[k].qry[j] : j \in 1..Len(t.res[k].qry)} # {x \in 1..Len(q) : P(q[x], t.res[k].p)}
  THEN "query by " \o t.res[CHOOSE k \in 1..Len(t.res) : t.res[k].hasq /\ {t.res[k].qry[j] : j \in 1..Len(t.res[k].qry)} # {x \in 1..Len(q) : P(q[x], t.res[k].p)}].p
  ELSE ""

ImageClause(t, secs) ==
  LET p == Picked(secs, t.a) IN
  IF ~Disjoint(p) THEN ""
  ELSE IF t.x # "" THEN "no image: " \o t.x
  ELSE IF t.res # ImageOf(secs, t.a) THEN "image"
  ELSE IF t.called # [k \in 1..Len(p) |-> p[k].index + 1] THEN "sections announced to the callback"
  ELSE IF t.framed = FALSE THEN "callback not told about start and stop" ELSE ""

DebugClause(t, secs) ==
  LET q == SelectSeq(secs, LAMBDA s : SecPred(s, "is_debug")) IN
  IF {t.res[k].name : k \in 1..Len(t.res)} # {q[k].name : k \in 1..Len(q)} THEN "debug sections"
  ELSE IF \E k \in 1..Len(t.res) : ~\E j \in 1..Len(q) : q[j].name = t.res[k].name /\ q[j].image = t.res[k].image THEN "contents of debug sections" ELSE ""

Special(y) == y.st_shndx = OfNat(65521) /\ y.name # <<>> /\ y.name[1] = 95 /\ y.st_type = OfNat(0)
SpecialClause(t, syms) ==
  LET L(x, y) == LeqV(syms[x].st_value, syms[y].st_value)
      P(k) == Special(syms[k])
  IN IF Lists(t.res, Len(syms), P) /\ Ordered(t.res, L) THEN "" ELSE "special symbols"

MapClause(t, f, secs) ==
  LET g == Segments(f)
      is(r, x, k) == \E j \in 1..Len(r[k]) : r[k][j] = x
  IN IF \E k \in 1..Len(g) : \E x \in 1..Len(secs) : is(t.res.loose, x, k) # InSegment(secs[x], g[k], FALSE) THEN "section in segment"
     \* empty segments: nothing is said about strictness
     ELSE IF \E k \in 1..Len(g) : ~IsZero(g[k].p_filesz) /\ ~IsZero(g[k].p_memsz) /\ \E x \in 1..Len(secs) : is(t.res.strict, x, k) # InSegment(secs[x], g[k], TRUE) THEN "section in segment, strictly"
     ELSE ""

Clause(t, files, gaps) ==
  LET f == files[t.f]
      gap == gaps[t.f]
      secs == SectionsG(f, gap)
      syms == Symbols(f, secs)
  IN
  IF t.k = "write" \/ t.k = "crash" THEN ""
  ELSE IF t.k = "image" THEN ImageClause(t, secs)
  ELSE IF t.x # "" THEN "refused: " \o t.x
  ELSE
  CASE t.k = "open" -> OpenClause(t, f, gap, secs, syms)
    [] t.k = "sections.get" -> (LET P(k) == secs[k].name = t.a.name IN IF FirstOf(Len(secs), P, t.res) THEN "" ELSE "section by name")
    [] t.k = "sections.fetch" -> IF SectionsFetched(secs, t.a, t.res) THEN "" ELSE "sections fetched"
    [] t.k = "symbols.get" -> (LET P(k) == syms[k].name = t.a.name /\ (t.a.section = <<>> \/ syms[k].section = t.a.section) IN
                               IF FirstOf(Len(syms), P, t.res) THEN "" ELSE "symbol by name")
    [] t.k = "symbols.fetch" -> IF SymbolsFetched(syms, t.a, t.res) THEN "" ELSE "symbols fetched"
    [] t.k = "special" -> SpecialClause(t, syms)
    [] t.k = "symbol predicates" -> PredClause(t, syms, SymPred)
    [] t.k = "section predicates" -> PredClause(t, secs, SecPred)
    [] t.k = "segments" -> MapClause(t, f, secs)
    [] t.k = "debug" -> DebugClause(t, secs)

Init == c \in 1..Len(Trace) /\ i = 0
Next == /\ i < Len(Trace[c].steps)
        /\ i' = i + 1 /\ c' = c
        /\ LET t == Trace[c].steps[i + 1]  b == Clause(t, Trace[c].files, Trace[c].gaps) IN
           b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> i + 1, key |-> t.k \o ": " \o b]))
Spec == Init /\ [][Next]_vars
=============================================================================
