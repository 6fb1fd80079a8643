------------------------------- MODULE ElfMC -------------------------------
(* All small ELF files of a bounded model: class, byte order, place in the     *)
(* address space and up to MaxSecs sections of different kinds.  Checked: what *)
(* ElfFormat reads from a file is what was encoded; laws of images and         *)
(* queries.  Every file is printed with queries and opened by the code.        *)
EXTENDS ElfFormat, Json, IOUtils
CONSTANTS MaxSecs

Kinds == {"text", "data", "bss", "debug", "empty", "note", "strings"}
VARIABLES d, done
vars == <<d, done>>

Put(v, e, n) == LET s == SubSeq(v, 9 - n, 8) IN IF e = 1 THEN Rev(s) ELSE s
\* "." followed by three letters: prefixes are shared
KName(k) == CASE k = "text" -> <<46, 116, 120>> [] k = "data" -> <<46, 100, 97>> [] k = "bss" -> <<46, 98, 115>>
              [] k = "debug" -> <<46, 100, 101, 98, 117, 103>> [] k = "empty" -> <<46, 116, 101>> [] k = "note" -> <<46, 110>> [] k = "strings" -> <<46, 100, 97, 49>>
KFlags(k) == CASE k = "text" -> 6 [] k = "data" -> 3 [] k = "bss" -> 3 [] k = "debug" -> 0 [] k = "empty" -> 2 [] k = "note" -> 2 [] k = "strings" -> 50
KType(k) == CASE k = "bss" -> 8 [] k = "note" -> 7 [] OTHER -> 1
\* contents: the i-th section
KData(k, i, e) == CASE k \in {"bss", "empty"} -> <<>>
                    [] k = "note" -> Put(OfNat(2), e, 4) \o Put(OfNat(3), e, 4) \o Put(OfNat(i), e, 4) \o <<65, 0, 0, 0>> \o <<i, 2, 3, 0>>
                    [] OTHER -> <<i, 255, 0, 16 + i>>
KSize(k, i, e) == IF k = "bss" THEN 8 ELSE Len(KData(k, i, e))

Base(b, cls) == CASE b = "low" -> OfNat(4096)
                  [] b = "half" -> IF cls = 2 THEN <<127, 255, 255, 255, 255, 255, 255, 250>> ELSE <<0, 0, 0, 0, 127, 255, 255, 250>>
                  [] b = "top" -> IF cls = 2 THEN <<255, 255, 255, 255, 255, 0, 0, 0>> ELSE <<0, 0, 0, 0, 255, 0, 0, 0>>

RECURSIVE AddrR(_, _, _)
AddrR(q, b, n) == IF n = 1 THEN b ELSE AddV(AddrR(q, b, n - 1), KSize(q[n - 1], n - 1, 1))
\* allocated sections follow each other, with a gap before the last one
KAddr(x, n) == IF KFlags(x.q[n]) = 0 THEN OfNat(0) ELSE AddV(AddrR(x.q, Base(x.b, x.cls), n), IF x.gap /\ n = Len(x.q) THEN 1 ELSE 0)

RECURSIVE StrTab(_, _)
StrTab(names, n) == IF n = 0 THEN <<0>> ELSE StrTab(names, n - 1) \o names[n] \o <<0>>
StrOff(names, n) == Len(StrTab(names, n - 1))

SymName(i) == <<115, 48 + i>>
SymtabN == <<46, 115, 121>>
StrtabN == <<46, 115, 116>>
ShstrN == <<46, 115, 104>>

Encode(x) ==
  LET n == Len(x.q)  e == x.e  l == x.cls = 2
      w == IF l THEN 8 ELSE 4  eh == IF l THEN 64 ELSE 52  sw == IF l THEN 24 ELSE 16  ph == IF l THEN 56 ELSE 32
      secNames == [i \in 1..n |-> KName(x.q[i])] \o <<SymtabN, StrtabN, ShstrN>>
      shstr == StrTab(secNames, n + 3)
      symNames == [i \in 1..n |-> SymName(i)] \o <<<<95, 122>>>>
      strtab == StrTab(symNames, n + 1)
      info(i) == (i % 3) * 16 + (i % 7)
      Sym(nm, v, sz, inf, oth, sh) ==
        IF l THEN Put(OfNat(nm), e, 4) \o <<inf, oth>> \o Put(OfNat(sh), e, 2) \o Put(v, e, 8) \o Put(OfNat(sz), e, 8)
        ELSE Put(OfNat(nm), e, 4) \o Put(v, e, 4) \o Put(OfNat(sz), e, 4) \o <<inf, oth>> \o Put(OfNat(sh), e, 2)
      symtab == Sym(0, OfNat(0), 0, 0, 0, 0) \o Flatten([i \in 1..n |-> Sym(StrOff(symNames, i), KAddr(x, i), 4 * i, info(i), i % 4, i)])
                \o Sym(StrOff(symNames, n + 1), Base(x.b, x.cls), 0, 16, 0, 65521)
      data == [i \in 1..n |-> KData(x.q[i], i, e)] \o <<symtab, strtab, shstr>>
      off(i) == eh + Len(Flatten(SubSeq(data, 1, i - 1)))
      shoff == off(n + 4)
      phoff == shoff + (n + 4) * (IF l THEN 64 ELSE 40)
      Sh(nm, ty, fl, ad, of, sz, lk) ==
        Put(OfNat(nm), e, 4) \o Put(OfNat(ty), e, 4) \o Put(OfNat(fl), e, w) \o Put(ad, e, w) \o Put(OfNat(of), e, w) \o Put(OfNat(sz), e, w)
        \o Put(OfNat(lk), e, 4) \o Put(OfNat(7), e, 4) \o Put(OfNat(4), e, w) \o Put(OfNat(0), e, w)
      shs == Sh(0, 0, 0, OfNat(0), 0, 0, 0)
             \o Flatten([i \in 1..n |-> Sh(StrOff(secNames, i), KType(x.q[i]), KFlags(x.q[i]), KAddr(x, i), off(i), KSize(x.q[i], i, e), 0)])
             \o Sh(StrOff(secNames, n + 1), 2, 0, OfNat(0), off(n + 1), Len(symtab), n + 2)
             \o Sh(StrOff(secNames, n + 2), 3, 0, OfNat(0), off(n + 2), Len(strtab), 0)
             \o Sh(StrOff(secNames, n + 3), 3, 0, OfNat(0), off(n + 3), Len(shstr), 0)
      seg == IF l THEN Put(OfNat(1), e, 4) \o Put(OfNat(5), e, 4) \o Put(OfNat(eh), e, 8) \o Put(Base(x.b, x.cls), e, 8) \o Put(OfNat(2), e, 8) \o Put(OfNat(8), e, 8) \o Put(OfNat(12), e, 8) \o Put(OfNat(16), e, 8)
             ELSE Put(OfNat(1), e, 4) \o Put(OfNat(eh), e, 4) \o Put(Base(x.b, x.cls), e, 4) \o Put(OfNat(2), e, 4) \o Put(OfNat(8), e, 4) \o Put(OfNat(12), e, 4) \o Put(OfNat(5), e, 4) \o Put(OfNat(16), e, 4)
      hdr == <<127, 69, 76, 70, x.cls, e, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
             \o Put(OfNat(2), e, 2) \o Put(OfNat(62), e, 2) \o Put(OfNat(1), e, 4) \o Put(Base(x.b, x.cls), e, w) \o Put(OfNat(phoff), e, w) \o Put(OfNat(shoff), e, w)
             \o Put(OfNat(5), e, 4) \o Put(OfNat(eh), e, 2) \o Put(OfNat(ph), e, 2) \o Put(OfNat(1), e, 2) \o Put(OfNat(IF l THEN 64 ELSE 40), e, 2) \o Put(OfNat(n + 4), e, 2) \o Put(OfNat(n + 3), e, 2)
  IN hdr \o Flatten(data) \o shs \o seg

Init == /\ done = FALSE
        /\ d \in [cls : {1, 2}, e : {1, 2}, b : {"low", "half", "top"}, gap : BOOLEAN, q : {<<>>}]
\* sections are added one by one
Grow == /\ ~done /\ Len(d.q) < MaxSecs /\ \E k \in Kinds : d' = [d EXCEPT !.q = Append(@, k)]
        /\ UNCHANGED done
\* thin the product out a little
Sensible == (d.gap => Len(d.q) > 1) /\ (d.b = "low" => Len(d.q) # 1)

-----------------------------------------------------------------------------
All == [join |-> TRUE, inc |-> <<>>, exc |-> <<>>, odd |-> FALSE]
P1 == <<<<[k |-> "lit", c |-> 46], [k |-> "lit", c |-> 116]>>>>                                    \* \.t
P2 == <<<<[k |-> "star", c |-> 0], [k |-> "lit", c |-> 97], [k |-> "end", c |-> 0]>>, <<[k |-> "lit", c |-> 46], [k |-> "any", c |-> 0], [k |-> "lit", c |-> 115]>>>>  \* .*a$|\..s
NoSym == [sections |-> <<>>, pattern |-> <<>>, access |-> <<>>, bindings |-> <<>>, types |-> <<>>, byvalue |-> TRUE, odd |-> FALSE]
NoSec == [sections |-> <<>>, pattern |-> <<>>, byaddr |-> TRUE, odd |-> FALSE]
Q(k, a) == [k |-> k, a |-> a]
None == [odd |-> FALSE]
Queries == <<Q("open", None), Q("image", All), Q("image", [All EXCEPT !.join = FALSE]), Q("image", [All EXCEPT !.inc = P1]), Q("image", [All EXCEPT !.exc = P1]), Q("image", [All EXCEPT !.inc = P2]),
             Q("sections.fetch", NoSec), Q("sections.fetch", [NoSec EXCEPT !.byaddr = FALSE]), Q("sections.fetch", [NoSec EXCEPT !.pattern = P2]), Q("sections.get", [name |-> KName("data"), odd |-> FALSE]),
             Q("symbols.fetch", NoSym), Q("symbols.fetch", [NoSym EXCEPT !.access = <<"w", "x">>]), Q("symbols.fetch", [NoSym EXCEPT !.access = <<"x">>, !.byvalue = FALSE]),
             Q("symbols.fetch", [NoSym EXCEPT !.bindings = <<"g", "w">>, !.byvalue = FALSE]), Q("symbols.fetch", [NoSym EXCEPT !.types = <<"object", "func">>]), Q("symbols.fetch", [NoSym EXCEPT !.sections = <<KName("text"), UNDEF>>]),
             Q("symbols.get", [name |-> SymName(1), section |-> <<>>, odd |-> FALSE]), Q("symbols.get", [name |-> SymName(2), section |-> KName("text"), odd |-> FALSE]),
             Q("special", None), Q("symbol predicates", None), Q("section predicates", None), Q("debug", None), Q("segments", None)>>

Wants(q) == CASE IOEnv.MODE = "open" -> q.k = "open" [] IOEnv.MODE = "image" -> q.k = "image" [] IOEnv.MODE = "query" -> q.k \notin {"open", "image"} [] OTHER -> TRUE
Report == ~done /\ Sensible /\ done' = TRUE /\ UNCHANGED d /\ PrintT(ToJson([file |-> Encode(d), queries |-> SelectSeq(Queries, Wants)]))
Next == Grow \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Theorems about the specification                                           *)
ReadsWhatIsWritten ==
  done \/
  LET f == Encode(d)  s == Sections(f)  y == Symbols(f, s)  n == Len(d.q) IN
  /\ Len(s) = n + 4 /\ Len(y) = n + 2 /\ Len(Segments(f)) = 1
  /\ Header(f).e_entry = Base(d.b, d.cls) /\ Segments(f)[1].p_vaddr = Base(d.b, d.cls) /\ Segments(f)[1].p_align = OfNat(16)
  /\ \A i \in 1..n : /\ s[i + 1].name = KName(d.q[i]) /\ s[i + 1].image = KData(d.q[i], i, d.e) /\ s[i + 1].sh_addr = KAddr(d, i)
                     /\ s[i + 1].sh_flags = OfNat(KFlags(d.q[i])) /\ s[i + 1].sh_info = OfNat(7)
                     /\ y[i + 1].name = SymName(i) /\ y[i + 1].st_value = KAddr(d, i) /\ y[i + 1].section = KName(d.q[i]) /\ y[i + 1].st_size = OfNat(4 * i)
                     /\ y[i + 1].st_bind = OfNat(i % 3) /\ y[i + 1].access = OfNat(KFlags(d.q[i]))
  /\ Len(Notes(f, s)) = Cardinality({i \in 1..n : d.q[i] = "note"})

Mem(q) == UNION {{<<AddV(q[i].a, k - 1), q[i].d[k]>> : k \in 1..Len(q[i].d)} : i \in 1..Len(q)}
ImageLaws ==
  done \/
  LET s == Sections(Encode(d))
      whole == ImageOf(s, All)
      J == {[All EXCEPT !.inc = p, !.exc = r, !.join = j] : p \in {<<>>, P1, P2}, r \in {<<>>, P1}, j \in BOOLEAN}
  IN /\ Disjoint(Picked(s, All))
     \* exactly the bytes of allocated sections with contents
     /\ Mem(whole) = UNION {{<<AddV(KAddr(d, i), k - 1), KData(d.q[i], i, d.e)[k]>> : k \in 1..Len(KData(d.q[i], i, d.e))} : i \in {i \in 1..Len(d.q) : d.q[i] # "debug"}}
     /\ \A a \in J : /\ Mem(ImageOf(s, a)) = Mem(ImageOf(s, [a EXCEPT !.join = ~@]))
                     /\ Mem(ImageOf(s, a)) \subseteq Mem(whole)
                     /\ \A i \in 1..(Len(ImageOf(s, a)) - 1) : a.join => AddV(ImageOf(s, a)[i].a, Len(ImageOf(s, a)[i].d)) # ImageOf(s, a)[i + 1].a
     \* what a pattern selects and what it excludes make the whole
     /\ Mem(ImageOf(s, [All EXCEPT !.inc = P1])) \cup Mem(ImageOf(s, [All EXCEPT !.exc = P1])) = Mem(whole)
     /\ Mem(ImageOf(s, [All EXCEPT !.inc = P1])) \cap Mem(ImageOf(s, [All EXCEPT !.exc = P1])) = {}

QueryLaws ==
  done \/
  LET f == Encode(d)  s == Sections(f)  y == Symbols(f, s)
      got(a) == {i \in 1..Len(y) : SymbolWanted(y[i], a)}
  IN /\ got(NoSym) = 1..Len(y)
     \* bindings and types divide the symbols, access rights add up
     /\ got([NoSym EXCEPT !.bindings = <<"g">>]) \cup got([NoSym EXCEPT !.bindings = <<"l", "w">>]) = 1..Len(y)
     /\ got([NoSym EXCEPT !.bindings = <<"g">>]) \cap got([NoSym EXCEPT !.bindings = <<"l", "w">>]) = {}
     /\ got([NoSym EXCEPT !.access = <<"w", "x">>]) = got([NoSym EXCEPT !.access = <<"w">>]) \cup got([NoSym EXCEPT !.access = <<"x">>])
     \* filters are conjunctive
     /\ got([NoSym EXCEPT !.access = <<"x">>, !.bindings = <<"g">>]) = got([NoSym EXCEPT !.access = <<"x">>]) \cap got([NoSym EXCEPT !.bindings = <<"g">>])
     \* strictly in a segment: in it
     /\ \A i \in 1..Len(s) : LET g == Segments(f)[1] IN InSegment(s[i], g, TRUE) => InSegment(s[i], g, FALSE)
     /\ \A i \in 1..Len(s) : LET g == Segments(f)[1] IN (InSegment(s[i], g, FALSE) /\ ~IsZero(s[i].sh_size)) => InSegment(s[i], g, TRUE)
     \* a symbol that lies in no section has no access rights
     /\ \A i \in 1..Len(y) : y[i].section \in {UNDEF, ABS} => ~SymbolWanted(y[i], [NoSym EXCEPT !.access = <<"a", "w", "x">>])
=============================================================================
