----------------------------- MODULE ImageModel -----------------------------
(* Images and sections as a byte-addressed memory.                            *)
(*                                                                            *)
(* The world is a sequence of objects a client holds:                         *)
(*   [k |-> "img", s |-> sections, cur |-> cursor]   an image                 *)
(*   [k |-> "sec", s |-> << section >>, cur |-> 0]   a section of the client  *)
(*   [k |-> "buf", s |-> << section >>, cur |-> 0]   what a read returned, at *)
(*                                              address 0: a copy of its own  *)
(* A section is [a |-> start address, d |-> bytes].  Addresses are relative   *)
(* to a base the harness picks (0, 2^31, 2^32-8, 2^64 ...): the specification *)
(* is translation invariant.                                                  *)
(*                                                                            *)
(* For an operation op: Faults(w, op) is the set of reasons to refuse it,     *)
(* Post(w, op) the world and Res(w, op) the result if it is carried out.      *)
(*   "addr"  outside of the address space -> must raise InvalidAddressError   *)
(*   "other" bad value, type, index ...   -> must raise something             *)
(* A refused operation changes nothing.                                       *)
EXTENDS Numbers

End(s) == s.a + Len(s.d)
In(s, x) == s.a <= x /\ x < End(s)
Contained(secs, x) == \E i \in 1..Len(secs) : In(secs[i], x)
Overlaps(secs, a, n) == Contained(secs, a) \/ \E i \in 1..Len(secs) : a < End(secs[i]) /\ secs[i].a < a + n

(* sorted insertion; sections starting at the same (empty) place keep order   *)
InsertAt(secs, s) ==
  LET before == {i \in 1..Len(secs) : secs[i].a <= s.a}
      n == IF before = {} THEN 0 ELSE CHOOSE m \in before : \A x \in before : x <= m
  IN Take(secs, n) \o <<s>> \o Drop(secs, n)

RECURSIVE JoinR(_, _)
JoinR(acc, rest) ==
  IF rest = <<>> THEN acc
  ELSE LET s == Head(rest)  n == Len(acc) IN
       IF n > 0 /\ End(acc[n]) = s.a
       THEN JoinR([acc EXCEPT ![n].d = @ \o s.d], Tail(rest))
       ELSE JoinR(Append(acc, s), Tail(rest))
Join(secs) == JoinR(<<>>, secs)

RECURSIVE SortR(_, _)
SortR(acc, rest) == IF rest = <<>> THEN acc ELSE SortR(InsertAt(acc, Head(rest)), Tail(rest))
Sorted(secs) == SortR(<<>>, secs)

------------------------------------------------------------------------------
(* One section, one access.                                                    *)
Fits(s, a, n) == a >= s.a /\ a + n <= End(s)
Bytes(s, a, n) == Slice(s.d, a - s.a, n)
Put(s, a, b) == [s EXCEPT !.d = Overlay(@, a - s.a, b)]

RECURSIVE FirstZero(_, _)
FirstZero(d, i) == IF i > Len(d) THEN 0 ELSE IF d[i] = 0 THEN i ELSE FirstZero(d, i + 1)
(* length of the text starting at a, or -1 if there's no terminator *)
TextLen(s, a) == IF a < s.a \/ a > End(s) THEN -1
                 ELSE LET i == FirstZero(s.d, a - s.a + 1) IN IF i = 0 THEN -1 ELSE i - (a - s.a) - 1

RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))

(* position (C order) of element k of the transposed array in the original *)
RECURSIVE Coords(_, _)
Coords(k, sh) == IF sh = <<>> THEN <<>> ELSE LET p == Product(Tail(sh)) IN <<k \div p>> \o Coords(k % p, Tail(sh))
RECURSIVE Linear(_, _)
Linear(c, sh) == IF sh = <<>> THEN 0 ELSE Head(c) * Product(Tail(sh)) + Linear(Tail(c), Tail(sh))
TransposedIndex(k, sh) == Linear(Rev(Coords(k, Rev(sh))), sh)

MaskTo(m, w) == IF Len(m) >= w THEN Drop(m, Len(m) - w) ELSE PadTo(m, w)
Masked(t, b, m) == LET be == InOrder(b, t.o)  mm == MaskTo(m, t.w)
                   IN InOrder([i \in 1..t.w |-> BitAnd(be[i], mm[i])], t.o)

Accesses == {"read", "keep", "write", "rn", "wn", "rna", "wna", "rs", "ws", "rnd", "wnd"}
Writes == {"write", "wn", "wna", "ws", "wnd"}
TypedOps == {"rn", "wn", "rna", "wna", "rnd", "wnd"}

(* bytes touched, provided the arguments are meaningful *)
Span(s, op) ==
  CASE op.o \in {"read", "keep"} -> op.n
    [] op.o = "write" -> Len(op.d)
    [] op.o \in {"rn", "wn"} -> DTypes[op.t].w
    [] op.o = "rna" -> op.n * DTypes[op.t].w
    [] op.o \in {"wna", "wnd"} -> Len(op.v) * DTypes[op.t].w
    [] op.o = "rnd" -> op.n
    [] op.o = "rs" -> IF op.n >= 0 THEN op.n ELSE Max(0, TextLen(s, op.a))
    [] op.o = "ws" -> Len(TextBytes(op.c, op.e)) + 1

(* faults of an access to section s *)
SecFaults(s, op) ==
  LET typed == op.o \in TypedOps
      badtype == typed /\ ~KnownDType(op.t)
      badtext == op.o = "ws" /\ ~TextOk(op.c, op.e)
      badval == ~badtype /\ CASE op.o = "wn" -> ~EncodeOk(DTypes[op.t], op.v)
                              [] op.o \in {"wna", "wnd"} -> \E i \in 1..Len(op.v) : ~EncodeOk(DTypes[op.t], op.v[i])
                              [] op.o = "rnd" -> op.n % DTypes[op.t].w # 0 \/ Product(op.sh) * DTypes[op.t].w # op.n
                              [] op.o = "write" -> \E i \in 1..Len(op.d) : op.d[i] \notin Byte
                              [] OTHER -> FALSE
      noend == op.o = "rs" /\ op.a >= s.a /\ op.n < 0 /\ TextLen(s, op.a) < 0
      fits == badtype \/ badtext \/ noend \/ Fits(s, op.a, Span(s, op))
      undecodable == /\ op.o = "rs" /\ ~noend /\ op.a >= s.a /\ Fits(s, op.a, Span(s, op))
                     /\ ~BytesDecodable(Bytes(s, op.a, Span(s, op)), op.e)
  IN (IF op.a < s.a \/ ~fits THEN {"addr"} ELSE {})
     \cup (IF badtype \/ badtext \/ badval \/ noend \/ undecodable THEN {"other"} ELSE {})

SecRes(s, op) ==
  LET b == Bytes(s, op.a, Span(s, op))
      t == DTypes[op.t]
      el(i) == Decode(t, Slice(b, (i - 1) * t.w, t.w))
  IN CASE op.o = "read" -> b
       [] op.o = "rn" -> IF "mask" \in DOMAIN op THEN Decode(t, Masked(t, b, op.mask)) ELSE Decode(t, b)
       [] op.o = "rna" -> [i \in 1..op.n |-> el(i)]
       [] op.o = "rnd" -> [sh |-> IF op.ord = "F" THEN Rev(op.sh) ELSE op.sh,
                           v |-> [i \in 1..(op.n \div t.w) |-> IF op.ord = "F" THEN el(TransposedIndex(i - 1, op.sh) + 1) ELSE el(i)]]
       [] op.o = "rs" -> TextOf(b, op.e)
       [] OTHER -> <<>>

SecPost(s, op) ==
  CASE op.o = "write" -> Put(s, op.a, op.d)
    [] op.o = "wn" -> Put(s, op.a, Encode(DTypes[op.t], op.v))
    [] op.o \in {"wna", "wnd"} -> Put(s, op.a, Flatten([i \in 1..Len(op.v) |-> Encode(DTypes[op.t], op.v[i])]))
    [] op.o = "ws" -> Put(s, op.a, TextBytes(op.c, op.e) \o <<0>>)
    [] OTHER -> s

------------------------------------------------------------------------------
(* The world.                                                                  *)
Range1(n) == 1..n
(* index of the section of object o an access at address x goes to (0: none)  *)
Target(o, x) == IF o.k = "sec" THEN 1
                ELSE LET c == {i \in 1..Len(o.s) : In(o.s[i], x)}
                     IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

(* where a pattern (non-empty) occurs: leftmost, not overlapping *)
RECURSIVE FindR(_, _, _, _)
FindR(d, p, i, acc) == IF i + Len(p) - 1 > Len(d) THEN acc
                       ELSE IF SubSeq(d, i, i + Len(p) - 1) = p THEN FindR(d, p, i + Len(p), Append(acc, i - 1))
                       ELSE FindR(d, p, i + 1, acc)

(* order of byte strings *)
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
                 ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q) ELSE LexLess(Tail(p), Tail(q))
(* sections are ordered by address, then by their bytes *)
SecLess(s, t) == s.a < t.a \/ (s.a = t.a /\ LexLess(s.d, t.d))
BadData(d) == IF \E i \in 1..Len(d) : d[i] \notin Byte THEN {"other"} ELSE {}

Sources(w, op) == Flatten([i \in 1..Len(op.from) |-> w[op.from[i]].s])
Cursor(w, op) == IF "a" \in DOMAIN op THEN op.a ELSE w[op.x].cur

Faults(w, op) ==
  CASE op.o \in Accesses ->
         LET t == Target(w[op.x], op.a) IN IF t = 0 THEN {"addr"} ELSE SecFaults(w[op.x].s[t], op)
    [] op.o = "ins" -> (IF Overlaps(w[op.x].s, Cursor(w, op), Len(op.d)) THEN {"addr"} ELSE {}) \cup BadData(op.d)
    [] op.o = "sec" -> BadData(op.d)
    [] op.o = "get" -> IF Contained(w[op.x].s, op.a) THEN {} ELSE {"addr"}
    [] op.o = "item" -> IF op.n < Len(w[op.x].s) /\ op.n >= -Len(w[op.x].s) THEN {} ELSE {"other"}
    [] OTHER -> {}

Res(w, op) ==
  CASE op.o \in Accesses -> SecRes(w[op.x].s[Target(w[op.x], op.a)], op)
    [] op.o = "has" -> Contained(w[op.x].s, op.a)
    [] op.o = "len" -> Sum([i \in 1..Len(w[op.x].s) |-> Len(w[op.x].s[i].d)])
    [] op.o = "get" -> w[op.x].s[Target(w[op.x], op.a)]
    [] op.o = "item" -> w[op.x].s[IF op.n < 0 THEN Len(w[op.x].s) + op.n + 1 ELSE op.n + 1]
    [] op.o = "iter" -> w[op.x].s
    [] op.o = "eq" -> w[op.x].s = w[op.y].s
    [] op.o = "cmp" -> LET s == w[op.x].s[1]  t == w[op.y].s[1]
                       IN <<SecLess(s, t), ~SecLess(t, s), s = t, ~SecLess(s, t), SecLess(t, s)>>
    [] op.o = "find" -> LET s == w[op.x].s[1]  h == FindR(s.d, op.p, 1, <<>>)
                        IN [i \in 1..Len(h) |-> <<s.a + h[i], Len(op.p)>>]
    [] OTHER -> <<>>

Post(w, op) ==
  CASE op.o \in Writes -> [w EXCEPT ![op.x].s[Target(w[op.x], op.a)] = SecPost(@, op)]
    [] op.o = "ins" ->
         LET a == Cursor(w, op)  s == InsertAt(w[op.x].s, [a |-> a, d |-> op.d])
         IN [w EXCEPT ![op.x] = [@ EXCEPT !.s = IF op.j THEN Join(s) ELSE s, !.cur = a + Len(op.d)]]
    [] op.o = "join" -> [w EXCEPT ![op.x].s = Join(@)]
    [] op.o = "keep" -> Append(w, [k |-> "buf", s |-> <<[a |-> 0, d |-> Bytes(w[op.x].s[Target(w[op.x], op.a)], op.a, op.n)]>>, cur |-> 0])
    [] op.o = "poke" -> [w EXCEPT ![op.x].s[1].d = Overlay(@, op.p, <<op.v>>)]      \* the client changes what it has read
    [] op.o = "ext" -> [w EXCEPT ![op.x].s[1].d = @ \o op.d]      \* the client appends to the buffer of its section
    [] op.o = "sec" -> Append(w, [k |-> "sec", s |-> <<[a |-> op.a, d |-> op.d]>>, cur |-> 0])
    [] op.o = "new" -> Append(w, [k |-> "img", s |-> LET q == Sorted(Sources(w, op)) IN IF op.j THEN Join(q) ELSE q, cur |-> op.zero])
    [] OTHER -> w      \* queries, dumps, hexdumps, comparisons change nothing

------------------------------------------------------------------------------
(* What every reachable world looks like (checked on the bounded model).       *)
DisjointSorted(o) == \A i \in 1..Len(o.s) : \A j \in 1..Len(o.s) : i < j => End(o.s[i]) <= o.s[j].a
NothingAdjacent(o) == \A i \in 1..(Len(o.s) - 1) : End(o.s[i]) < o.s[i + 1].a
(* the image as a partial function address -> byte *)
Mem(o, x) == LET t == Target(o, x) IN IF t = 0 \/ ~In(o.s[t], x) THEN -1 ELSE o.s[t].d[x - o.s[t].a + 1]
=============================================================================
