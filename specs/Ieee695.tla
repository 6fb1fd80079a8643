------------------------------ MODULE Ieee695 -------------------------------
(* IEEE-695 object modules.  A module is a sequence of records; each begins    *)
(* with one or two command bytes, followed by numbers, strings and optional    *)
(* fields.  Reading is a state machine: Step consumes one record of the bytes  *)
(* b at offset st.p.  Numbers are byte sequences without leading zeros, an     *)
(* optional value is <<>> or <<value>>; letters are <<0, code>>.               *)
EXTENDS Bytes, TLC

None == <<>>
Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Got(v, p) == [ok |-> TRUE, p |-> p, v |-> v]
Fits(b, p, n) == p + n <= Len(b)
Nat3(m) == IF Len(m) > 3 THEN 16777216 ELSE IF m = <<>> THEN 0 ELSE IF Len(m) = 1 THEN m[1] ELSE IF Len(m) = 2 THEN m[1] * 256 + m[2] ELSE (m[1] * 256 + m[2]) * 256 + m[3]
\* exact sums and products of numbers as bytes
RECURSIVE AddB(_, _, _)
AddB(m, n, c) == IF m = <<>> /\ n = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET t == (IF m = <<>> THEN 0 ELSE m[Len(m)]) + (IF n = <<>> THEN 0 ELSE n[Len(n)]) + c
                          F(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
                      IN Append(AddB(F(m), F(n), t \div 256), t % 256)
RECURSIVE ScaleB(_, _, _)
ScaleB(m, k, c) == IF m = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                   ELSE LET t == m[Len(m)] * k + c IN Append(ScaleB(SubSeq(m, 1, Len(m) - 1), k, t \div 256), t % 256)
RECURSIVE Times(_, _)
Times(m, n) == IF m = <<>> \/ n = <<>> THEN <<>>
               ELSE StripZeros(AddB(Append(Times(SubSeq(m, 1, Len(m) - 1), n), 0), ScaleB(n, m[Len(m)], 0), 0))

ByteAt(b, p) == IF Fits(b, p, 1) THEN Got(StripZeros(<<b[p + 1]>>), p + 1) ELSE Bad
NumAt(b, p) ==
  IF ~Fits(b, p, 1) THEN Bad
  ELSE LET c == b[p + 1] IN
       IF c <= 127 THEN Got(StripZeros(<<c>>), p + 1)
       ELSE IF c > 136 THEN Bad
       ELSE LET n == c - 128 IN IF Fits(b, p + 1, n) THEN Got(StripZeros(Slice(b, p + 1, n)), p + 1 + n) ELSE Bad
Chars(b, p, n) == IF Fits(b, p, n) THEN Got(Slice(b, p, n), p + n) ELSE Bad
StrAt(b, p) ==
  IF ~Fits(b, p, 1) THEN Bad
  ELSE LET c == b[p + 1] IN
       IF c <= 127 THEN Chars(b, p + 1, c)
       ELSE IF c = 222 THEN (IF Fits(b, p, 2) THEN Chars(b, p + 2, b[p + 2]) ELSE Bad)
       ELSE IF c = 223 THEN (IF Fits(b, p, 3) THEN Chars(b, p + 3, b[p + 2] * 256 + b[p + 3]) ELSE Bad)
       ELSE Bad
LetterAt(b, p) == IF ~Fits(b, p, 1) THEN Bad ELSE Got(<<IF b[p + 1] \in 193..218 THEN 0 ELSE 1, b[p + 1] - 128>>, p + 1)
\* a command byte (from E0 on) says that an optional field is absent
Absent(b, p) == b[p + 1] >= 224
Wrap(r) == IF r.ok THEN Got(<<r.v>>, r.p) ELSE r
OptAt(b, p) == IF ~Fits(b, p, 1) THEN Bad ELSE IF Absent(b, p) THEN Got(None, p)
               ELSE IF b[p + 1] \in 192..218 THEN Got(<<<<0, b[p + 1] - 128>>>>, p + 1) ELSE Wrap(NumAt(b, p))
OptStrAt(b, p) == IF ~Fits(b, p, 1) THEN Bad ELSE IF Absent(b, p) THEN Got(None, p) ELSE Wrap(StrAt(b, p))

At(kind, b, p) == CASE kind = "n" -> NumAt(b, p) [] kind = "s" -> StrAt(b, p) [] kind = "o" -> OptAt(b, p) [] kind = "t" -> OptStrAt(b, p)
                    [] kind = "b" -> ByteAt(b, p) [] kind = "l" -> LetterAt(b, p)
RECURSIVE Fields(_, _, _, _)
\* the fields of a record, one after the other
Fields(b, p, kinds, acc) ==
  IF kinds = <<>> THEN Got(acc, p)
  ELSE LET r == At(kinds[1], b, p) IN IF r.ok THEN Fields(b, r.p, Tail(kinds), Append(acc, r.v)) ELSE Bad

-----------------------------------------------------------------------------
(* What a reader knows: header, tables keyed by index, the tree of blocks in   *)
(* preorder, the bytes loaded.                                                 *)
Start == [p |-> 0, ok |-> "yes", done |-> FALSE,
          h |-> [processor |-> None, module |-> None, bits |-> None, maus |-> None, width |-> None, order |-> None, start |-> None, version |-> None, rev |-> None,
                 fmt |-> None, sens |-> None, mem |-> None, date |-> None, cmd |-> None, exec |-> None, host |-> None, comments |-> None],
          asw |-> <<>>, secs |-> <<>>, syms |-> <<>>, exts |-> <<>>, names |-> <<>>, ctxs |-> <<>>,
          tree |-> <<>>, open |-> <<>>, data |-> <<>>]

Has(q, k) == \E j \in 1..Len(q) : q[j].k = k
Put(q, r) == IF Has(q, r.k) THEN [j \in 1..Len(q) |-> IF q[j].k = r.k THEN r ELSE q[j]] ELSE Append(q, r)
Of(q, k) == q[CHOOSE j \in 1..Len(q) : q[j].k = k]
NewSec(k, type, name, parent) == [k |-> k, type |-> type, name |-> name, parent |-> parent, size |-> None, region |-> <<>>, phys |-> <<>>, offs |-> <<>>,
                                  mau |-> <<<<>>>>, base |-> None, m |-> None, align |-> None, page |-> None]
NewSym(k, name) == [k |-> k, name |-> name, expr |-> None, class |-> None, pub |-> None, num |-> None, str |-> None, type |-> None, count |-> None, attr |-> None]
NewExt(k, name) == [k |-> k, name |-> name, size |-> None, value |-> None, type |-> None, sec |-> None, short |-> None]

Fmt == <<"Absolute (not relinkable)", "Relocatable", "Loadable", "Library">>
Sens == <<"case insensitiv", "case sensitiv">>
Mem == <<"tiny", "small", "medium", "compact", "large", "big", "huge">>
PowOf2(n) == <<Pow2(n % 8)>> \o Zeros(n \div 8)

Fail(st) == [st EXCEPT !.ok = "bad"]
Open(st) == [st EXCEPT !.ok = "unknown"]
InSec(st, k, f(_)) == IF Has(st.secs, k) THEN [st EXCEPT !.secs = Put(@, f(Of(st.secs, k)))] ELSE Fail(st)
InSym(st, k, f(_)) == IF Has(st.syms, k) THEN [st EXCEPT !.syms = Put(@, f(Of(st.syms, k)))] ELSE Fail(st)
InExt(st, k, f(_)) == IF Has(st.exts, k) THEN [st EXCEPT !.exts = Put(@, f(Of(st.exts, k)))] ELSE Fail(st)

\* year, month, day, hour, minute, second
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysOf(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(v) == LET q == [j \in 1..6 |-> Nat3(v[j])] IN
  q[1] \in 1..9999 /\ q[2] \in 1..12 /\ q[3] >= 1 /\ q[3] <= DaysOf(q[1], q[2]) /\ q[4] < 24 /\ q[5] < 60 /\ q[6] < 60

\* attributes of names: number -> the fields that follow
AtnFields(a) ==
  CASE a \in {1, 2, 9, 38, 39, 40, 52, 53} -> <<"n">> [] a \in {3, 8} -> <<>> [] a = 7 -> <<"n", "n", "o", "o">> [] a \in {10, 37, 64} -> <<"n", "n">>
    [] a = 19 -> <<"n", "o">> [] a = 50 -> <<"n", "n", "n", "n", "n", "n">> [] a \in {51, 55, 65} -> <<"s">> [] a = 54 -> <<"n", "n", "n", "o">>
    [] OTHER -> <<"?">>
Named(st, names, n, f(_)) == IF n < 1 \/ n > Len(names) THEN Fail(st) ELSE [st EXCEPT !.h = f(names[n])]
Atn(st, a, v) ==
  CASE a = 37 -> [st EXCEPT !.h.version = <<v[1]>>, !.h.rev = <<v[2]>>]
    [] a = 38 -> LET n == Nat3(v[1]) IN IF n \in 1..4 THEN [st EXCEPT !.h.fmt = <<Fmt[n]>>] ELSE Fail(st)
    [] a = 39 -> LET n == Nat3(v[1]) IN IF n \in 1..2 THEN [st EXCEPT !.h.sens = <<Sens[n]>>] ELSE Fail(st)
    [] a = 40 -> LET n == Nat3(v[1]) IN IF n \in 0..6 THEN [st EXCEPT !.h.mem = <<Mem[n + 1]>>] ELSE Fail(st)
    [] a = 50 -> IF ValidDate(v) THEN [st EXCEPT !.h.date = v] ELSE Fail(st)
    [] a = 51 -> [st EXCEPT !.h.cmd = v] [] a = 52 -> [st EXCEPT !.h.exec = v] [] a = 53 -> [st EXCEPT !.h.host = v] [] a = 55 -> [st EXCEPT !.h.comments = v]
    [] OTHER -> st

\* blocks: type -> the fields behind type and size
BlockFields(t) ==
  LET d == <<"o", "o", "o", "o", "o", "o">> IN
  CASE t \in {1, 2, 3} -> <<"s">> [] t \in {4, 6} -> <<"s", "n", "n", "n">> [] t = 5 -> <<"s">> \o d
    [] t = 10 -> <<"s", "s", "n", "t">> \o d [] t = 11 -> <<"s", "n", "n", "n", "b", "n">> [] OTHER -> <<"?">>
\* every field as an optional value
Fielded(t, v) == [j \in 1..Len(v) |-> IF BlockFields(t)[j] \in {"o", "t"} THEN v[j] ELSE <<v[j]>>]

-----------------------------------------------------------------------------
(* kinds of records: [op, fields]; fields with "?" are not described here      *)
Op(b, p) ==
  LET c == b[p + 1]  d == IF Fits(b, p, 2) THEN b[p + 2] ELSE -1 IN
  CASE c = 224 -> [op |-> "MB", n |-> 1, f |-> <<"s", "s">>] [] c = 236 -> [op |-> "AD", n |-> 1, f |-> <<"n", "n", "o">>]
    [] c = 240 -> [op |-> "NN", n |-> 1, f |-> <<"n", "s">>] [] c = 233 -> [op |-> "NX", n |-> 1, f |-> <<"n", "s">>]
    [] c = 244 -> [op |-> "WX", n |-> 1, f |-> <<"n", "n", "n">>] [] c = 232 -> [op |-> "NI", n |-> 1, f |-> <<"n", "s">>]
    [] c = 251 -> [op |-> "NC", n |-> 1, f |-> <<"n", "s">>] [] c = 230 -> [op |-> "ST", n |-> 1, f |-> <<"n", "l", "l", "l", "s", "o">>]
    [] c = 231 -> [op |-> "SA", n |-> 1, f |-> <<"n", "n", "o">>] [] c = 229 -> [op |-> "SB", n |-> 1, f |-> <<"n">>]
    [] c = 237 -> [op |-> "LD", n |-> 1, f |-> <<"n">>] [] c = 225 -> [op |-> "ME", n |-> 1, f |-> <<>>]
    [] c = 248 -> [op |-> "BB", n |-> 1, f |-> <<"b", "n">>] [] c = 249 -> [op |-> "BE", n |-> 1, f |-> <<>>]
    [] c = 242 -> [op |-> "TY", n |-> 1, f |-> <<"n", "b", "n">>]
    [] c = 226 /\ d = 215 -> [op |-> "ASW", n |-> 2, f |-> <<"b", "n">>]
    [] c = 226 /\ d = 211 -> [op |-> "ASS", n |-> 2, f |-> <<"n", "n">>] [] c = 226 /\ d = 193 -> [op |-> "ASA", n |-> 2, f |-> <<"n", "n">>]
    [] c = 226 /\ d = 194 -> [op |-> "ASB", n |-> 2, f |-> <<"n", "n">>] [] c = 226 /\ d = 210 -> [op |-> "ASR", n |-> 2, f |-> <<"n", "n">>]
    [] c = 226 /\ d = 198 -> [op |-> "ASF", n |-> 2, f |-> <<"n", "n">>] [] c = 226 /\ d = 204 -> [op |-> "ASL", n |-> 2, f |-> <<"n", "n">>]
    [] c = 226 /\ d = 205 -> [op |-> "ASM", n |-> 2, f |-> <<"n", "n">>] [] c = 226 /\ d = 201 -> [op |-> "ASI", n |-> 2, f |-> <<"n", "n">>]
    [] c = 226 /\ d = 206 -> [op |-> "ASN", n |-> 2, f |-> <<"n", "n">>] [] c = 226 /\ d = 208 -> [op |-> "ASP", n |-> 2, f |-> <<"n", "n">>]
    [] c = 226 /\ d = 199 -> [op |-> "ASG", n |-> 2, f |-> <<"b", "n", "b">>]
    [] c = 241 /\ d = 201 -> [op |-> "ATI", n |-> 2, f |-> <<"n", "n", "n">>] [] c = 241 /\ d = 216 -> [op |-> "ATX", n |-> 2, f |-> <<"n", "n", "n", "n">>]
    [] c = 241 /\ d = 206 -> [op |-> "ATN", n |-> 2, f |-> <<"n", "n", "n">>]
    [] OTHER -> [op |-> "?", n |-> 0, f |-> <<>>]

RECURSIVE Rest(_, _)
\* fields up to the next record
Rest(b, p) == LET r == OptAt(b, p) IN IF ~r.ok THEN Bad ELSE IF r.v = None THEN Got(<<>>, p) ELSE Rest(b, r.p)

MoreFields(b, st, op, v) ==
  CASE op = "ATN" -> AtnFields(Nat3(v[3]))
    [] op = "ATI" -> (IF Nat3(v[3]) = 16 THEN <<"n", "o", "o", "t">> ELSE <<>>) \o (IF v[2] = <<>> THEN <<>> ELSE <<"n">>)
    [] op = "BB" -> BlockFields(Nat3(v[1]))
    [] op = "BE" -> IF st.open = <<>> THEN <<"?">> ELSE LET t == st.open[Len(st.open)] IN IF t \in {4, 6} THEN <<"n">> ELSE IF t = 11 THEN <<"o">> ELSE <<>>
    [] OTHER -> <<>>

\* the effect of a record with fields v, further fields w (and, for LD, the bytes d)
Effect(st, op, v, w, d) ==
  CASE op = "MB" -> [st EXCEPT !.h.processor = <<v[1]>>, !.h.module = <<v[2]>>]
    [] op = "AD" -> [st EXCEPT !.h.bits = <<v[1]>>, !.h.maus = <<v[2]>>, !.h.width = <<Times(v[1], v[2])>>, !.h.order = v[3]]
    [] op = "ASW" -> IF Nat3(v[1]) > 7 THEN Fail(st) ELSE [st EXCEPT !.asw = Put(@, [k |-> v[1], v |-> v[2]])]
    [] op = "NN" -> [st EXCEPT !.names = Put(@, [k |-> v[1], name |-> v[2]])]
    [] op = "NC" -> [st EXCEPT !.ctxs = Put(@, [k |-> v[1], name |-> v[2]])]
    [] op = "NI" -> [st EXCEPT !.syms = Put(@, NewSym(v[1], v[2]))]
    [] op = "NX" -> [st EXCEPT !.exts = Put(@, NewExt(v[1], v[2]))]
    [] op = "WX" -> InExt(st, v[1], LAMBDA e : [e EXCEPT !.size = <<v[2]>>, !.value = <<v[3]>>])
    [] op = "ATX" -> InExt(st, v[1], LAMBDA e : [e EXCEPT !.type = <<v[2]>>, !.sec = <<v[3]>>, !.short = <<v[4]>>])
    [] op = "ASI" -> InSym(st, v[1], LAMBDA s : [s EXCEPT !.expr = <<v[2]>>])
    [] op = "ATI" -> LET z == Nat3(v[3]) = 16  cnt == IF v[2] = <<>> THEN <<<<>>>> ELSE <<w[Len(w)]>> IN
                     InSym(st, v[1], LAMBDA s : [s EXCEPT !.type = <<v[2]>>, !.attr = <<v[3]>>, !.count = cnt,
                                                 !.class = IF z THEN <<w[1]>> ELSE @, !.pub = IF z THEN w[2] ELSE @, !.num = IF z THEN w[3] ELSE @, !.str = IF z THEN w[4] ELSE @])
    [] op = "ATN" -> Atn(st, Nat3(v[3]), w)
    [] op = "ST" -> IF v[2] # <<0, 65>> \/ v[3][1] # 0 \/ v[4][1] # 0 THEN Open(st)
                    ELSE [st EXCEPT !.secs = Put(@, NewSec(v[1], <<v[2][2], v[3][2], v[4][2]>>, v[5], v[6]))]
    [] op = "SA" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.align = <<PowOf2(Nat3(v[2]))>>, !.page = v[3]])
    [] op = "ASS" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.size = <<v[2]>>])
    [] op = "ASA" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.region = Append(@, v[2])])
    [] op = "ASB" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.phys = Append(@, v[2])])
    [] op = "ASR" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.offs = Append(@, v[2])])
    [] op = "ASF" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.mau = <<v[2]>>])
    [] op = "ASL" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.base = <<v[2]>>])
    [] op = "ASM" -> InSec(st, v[1], LAMBDA s : [s EXCEPT !.m = <<v[2]>>])
    [] op = "ASG" -> IF v[1] # <<190>> \/ v[3] # <<191>> THEN Open(st) ELSE [st EXCEPT !.h.start = <<v[2]>>]
    [] op = "SB" -> IF ~Has(st.secs, v[1]) THEN Fail(st) ELSE IF Of(st.secs, v[1]).size = None THEN Open(st) ELSE st
    [] op = "LD" -> [st EXCEPT !.data = @ \o d]
    [] op = "BB" -> LET t == Nat3(v[1]) IN [st EXCEPT !.tree = Append(@, [depth |-> Len(st.open), t |-> t, size |-> v[2], f |-> Fielded(t, w)]), !.open = Append(@, t)]
    [] op = "BE" -> [st EXCEPT !.open = Take(@, Len(@) - 1)]
    [] op = "ME" -> [st EXCEPT !.done = TRUE]
    [] OTHER -> st                                       \* ASN, ASP, TY: nothing is kept

Step(b, st) ==
  IF ~Fits(b, st.p, 1) THEN Fail(st)
  ELSE LET o == Op(b, st.p)
           r == IF o.op = "?" THEN Bad ELSE Fields(b, st.p + o.n, o.f, <<>>) IN
       IF o.op = "?" THEN Open(st)
       ELSE IF ~r.ok THEN Fail(st)
       ELSE LET k == MoreFields(b, st, o.op, r.v) IN
            IF k = <<"?">> THEN (IF o.op = "BE" THEN Fail(st) ELSE Open(st))
            ELSE LET q == IF o.op = "TY" THEN Rest(b, r.p) ELSE Fields(b, r.p, k, <<>>) IN
                 IF ~q.ok THEN Fail(st)
                 ELSE IF o.op = "LD" THEN
                      IF st.h.bits = None THEN Fail(st)
                      ELSE LET e == Times(r.v[1], st.h.bits[1])  n == Nat3(e) \div 8 IN
                           IF Len(e) <= 3 /\ Fits(b, q.p, n) THEN [Effect(st, "LD", r.v, <<>>, Slice(b, q.p, n)) EXCEPT !.p = q.p + n] ELSE Fail(st)
                 ELSE [Effect(st, o.op, r.v, q.v, <<>>) EXCEPT !.p = q.p]
RECURSIVE Run(_, _)
Run(b, st) == IF st.done \/ st.ok # "yes" THEN st ELSE Run(b, Step(b, st))
Module(b) == Run(b, Start)
=============================================================================
