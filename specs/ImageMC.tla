------------------------------- MODULE ImageMC -------------------------------
(* Bounded model of ImageModel.  TLC checks the memory laws on every           *)
(* transition and prints every transition [pre, op, faults, result, post];     *)
(* the harness replays each one on real Image/Section objects.                 *)
EXTENDS ImageModel, TLC, Json, IOUtils

CONSTANTS Mode, Depth
VARIABLES w, depth, init, h      \* init, h: how the world was reached (hidden by the view)

Sec(a, d) == [a |-> a, d |-> d]
Img(s) == [k |-> "img", s |-> s, cur |-> 0]
SecObj(s) == [k |-> "sec", s |-> <<s>>, cur |-> 0]
BaseOp(o, x) == [o |-> o, x |-> x]

SmallData == {<<>>, <<7>>, <<7, 0>>, <<7, 8, 9>>}
------------------------------------------------------------------------------
(* plain memory: reads and writes over every window of small images *)
MemInit == { << Img(<<Sec(1, <<10, 11, 12>>), Sec(4, <<13, 14>>), Sec(8, <<15>>)>>) >>,
             << Img(<<Sec(0, <<20, 21>>)>>) >>, << Img(<<>>) >>, << SecObj(Sec(2, <<30, 31, 32>>)) >> }
MemOps == { BaseOp("read", 1) @@ [a |-> a, n |-> n] : a \in -1..10, n \in 0..4 }
     \cup { BaseOp("write", 1) @@ [a |-> a, d |-> d] : a \in -1..10, d \in SmallData }
------------------------------------------------------------------------------
(* numbers: every data type, boundary values, every offset *)
IntVals(wd) == LET ms == { <<>>, <<1>>, <<127>>, <<128>>, <<255>>,
                           <<127>> \o Rep(255, wd - 1), <<128>> \o Zeros(wd - 1),
                           <<128>> \o Zeros(Max(0, wd - 2)) \o (IF wd > 1 THEN <<1>> ELSE <<>>),
                           Rep(255, wd), <<1>> \o Zeros(wd), [i \in 1..wd |-> 16 * i + i] }
               IN { [n |-> s, m |-> m] : s \in BOOLEAN, m \in ms } \ { [n |-> TRUE, m |-> <<>>] }
F64s == { <<0,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,0>>, <<191,248,0,0,0,0,0,0>>,
          <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, QNaN, <<127,239,255,255,255,255,255,255>>,
          <<71,239,255,255,224,0,0,0>>, <<71,239,255,255,239,255,255,255>>, <<71,239,255,255,240,0,0,0>>,
          <<56,16,0,0,0,0,0,0>>, <<54,160,0,0,0,0,0,0>>, <<54,144,0,0,0,0,0,0>>, <<54,144,0,0,0,0,0,1>>, <<56,15,255,255,224,0,0,0>>,
          <<63,185,153,153,153,153,153,154>>, <<0,0,0,0,0,0,0,1>>, <<63,240,0,0,16,0,0,0>>, <<63,240,0,0,48,0,0,0>> }
NumInit == { << SecObj(Sec(0, [i \in 1..9 |-> 100 + i])) >>,
             << Img(<<Sec(0, <<255, 128, 0, 127, 254, 1, 2, 3, 4>>)>>) >>, << Img(<<Sec(0, Rep(255, 8)), Sec(9, Rep(254, 3))>>) >>,
             << SecObj(Sec(0, <<0, 0, 128, 127, 192, 0, 0, 255, 255>>)) >> }
Types == DOMAIN DTypes
Masks == { <<>>, <<1>>, <<128>>, <<15, 240>>, <<127, 255, 255, 255>>, Rep(170, 8), <<1>> \o Rep(255, 8) }
NumOps == { BaseOp("rn", 1) @@ [a |-> a, t |-> t] : a \in {-1, 0, 1, 2, 5, 7, 8, 9, 10, 11, 12}, t \in Types \cup {"uint24_le", "uint16", "float16_le", "int32"} }
     \cup { BaseOp("rn", 1) @@ [a |-> a, t |-> t, mask |-> m] : a \in {0, 1, 5}, t \in Types, m \in Masks }
     \cup UNION { { BaseOp("wn", 1) @@ [a |-> a, t |-> t, v |-> v] : a \in {-1, 0, 1, 2, 5, 7, 8},
                     v \in IF DTypes[t].k = "f" THEN { [f |-> f] : f \in F64s } ELSE IntVals(DTypes[t].w) } : t \in Types }
------------------------------------------------------------------------------
(* arrays *)
ArrInit == { << Img(<<Sec(0, [i \in 1..26 |-> 3 + 9 * i])>>) >>, << SecObj(Sec(0, [i \in 1..12 |-> 255 - i])) >> }
El(t, k) == IF DTypes[t].k = "f" THEN [f |-> <<64, 16 * k, 0, 0, 0, 0, 0, 0>>]
            ELSE IF DTypes[t].k = "s" /\ k % 2 = 0 THEN [n |-> TRUE, m |-> <<k + 60>>] ELSE [n |-> FALSE, m |-> <<k + 100>>]
Shapes == { <<1>>, <<2>>, <<3>>, <<6>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 2, 2>>, <<1, 2, 3, 1>>, <<2, 1, 2, 1>> }
NdTypes == Types \ {"byte"}
ArrOps == { BaseOp("rna", 1) @@ [a |-> a, n |-> n, t |-> t] : a \in {-1, 0, 1, 3, 20, 25, 26}, n \in 0..4, t \in Types }
     \cup { BaseOp("wna", 1) @@ [a |-> a, t |-> t, v |-> [j \in 1..n |-> El(t, j)]] : a \in {-1, 0, 1, 3, 20}, n \in 1..3, t \in Types }
     \cup UNION { { BaseOp("rnd", 1) @@ [a |-> a, t |-> t, sh |-> sh, n |-> Product(sh) * DTypes[t].w + x, ord |-> r]
            : a \in {0, 1, 9, 15, 24}, sh \in Shapes, x \in {0, 1}, r \in {"C", "F"} } : t \in {"uint8_le", "int16_be", "uint16_le", "float32_le", "int32_be"} }
     \cup UNION { { BaseOp("wnd", 1) @@ [a |-> a, t |-> t, sh |-> sh, lay |-> l, v |-> [j \in 1..Product(sh) |-> El(t, j)]]
            : a \in {-1, 0, 1, 9, 15}, sh \in Shapes, l \in {"C", "F"} } : t \in {"uint8_le", "int16_be", "uint16_le", "float32_be", "float64_le"} }
------------------------------------------------------------------------------
(* strings *)
StrInit == { << Img(<<Sec(0, <<72, 105, 0, 65, 66>>)>>) >>, << Img(<<Sec(0, <<195, 164, 0>>), Sec(3, <<226, 130, 172, 0>>), Sec(9, <<255, 0, 0, 128>>)>>) >>,
             << SecObj(Sec(0, <<240, 159, 152, 128, 0, 65>>)) >>, << SecObj(Sec(0, <<0, 65, 66, 67>>)) >> }
Texts == { <<>>, <<65>>, <<65, 66>>, <<228>>, <<8364>>, <<128512>>, <<65, 66, 67>>, <<228, 65>>, <<65, 66, 67, 68>>, <<55296>> }
Encs == {"ascii", "latin1", "utf-8", "utf-16-le", "utf-16-be"}
StrOps == { BaseOp("rs", 1) @@ [a |-> a, e |-> e, n |-> n] : a \in -1..13, e \in Encs, n \in {-1, 0, 1, 2, 3, 4, 5} }
     \cup { BaseOp("ws", 1) @@ [a |-> a, e |-> e, c |-> t] : a \in -1..12, e \in Encs, t \in Texts }
------------------------------------------------------------------------------
(* building images: insertion in every order, joined or not *)
BuildInit == { << Img(<<>>) >> }
Fill(a, n) == [i \in 1..n |-> 16 + a + i]
BuildOps == { BaseOp("ins", 1) @@ [a |-> a, d |-> Fill(a, n), j |-> j] : a \in 0..6, n \in 1..3, j \in BOOLEAN }
       \cup { BaseOp("ins", 1) @@ [d |-> Fill(40, n), j |-> j] : n \in 1..2, j \in BOOLEAN }
       \cup { BaseOp("join", 1) }
------------------------------------------------------------------------------
(* objects made of other objects: no hidden sharing *)
ShareInit == { << SecObj(Sec(0, <<1, 2>>)), SecObj(Sec(2, <<3>>)), SecObj(Sec(5, <<4, 5>>)) >>,
               << SecObj(Sec(0, <<>>)), SecObj(Sec(2, <<3>>)), SecObj(Sec(5, <<>>)) >> }
\* sections given to a new image must not overlap (empty ones are no obstacle, but must not sit inside others)
Apart(f) == \A i, j \in 1..Len(f) : i # j => LET s == w[f[i]].s  t == w[f[j]].s
                IN \A p \in 1..Len(s), q \in 1..Len(t) : End(s[p]) <= t[q].a \/ End(t[q]) <= s[p].a
ShareOps(n) == { BaseOp("write", x) @@ [a |-> a, d |-> <<90 + x>>] : x \in {y \in 1..n : w[y].k # "buf"}, a \in {0, 2, 5} }
       \cup { BaseOp("new", 1) @@ [from |-> f, j |-> TRUE, zero |-> 0] : f \in { g \in {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1>>} \cup (IF n > 3 /\ w[4].k # "buf" THEN {<<4>>} ELSE {}) : Apart(g) } }
       \cup { BaseOp(o, x) : o \in {"hexdump", "dumps"}, x \in {y \in 4..n : w[y].k = "img"} }
       \cup { BaseOp("ins", x) @@ [a |-> 3, d |-> <<77>>, j |-> TRUE] : x \in {y \in 4..n : w[y].k = "img"} }
       \cup { BaseOp("ins", x) @@ [a |-> 8, d |-> w[2].s[1].d, j |-> j, src |-> 2] : x \in {y \in 4..n : w[y].k = "img" /\ w[2].s[1].d # <<>>}, j \in BOOLEAN }
       \cup (IF n < 5 THEN { BaseOp("keep", x) @@ [a |-> a, n |-> 2, how |-> how] : x \in {y \in 1..n : w[y].k # "buf"}, a \in {0, 5}, how \in {"read", "nd"} } ELSE {})
       \cup { BaseOp("poke", x) @@ [p |-> 1, v |-> 200] : x \in {y \in 4..n : w[y].k = "buf"} }
       \cup { BaseOp("ext", x) @@ [d |-> <<60 + x>>] : x \in 1..3 }
       \cup (IF n < 5 THEN { BaseOp("sec", 1) @@ [a |-> 9, d |-> w[s].s[1].d, src |-> s] : s \in {1, 2} } ELSE {})
------------------------------------------------------------------------------
(* queries *)
QueryInit == LET S == { <<>>, <<Sec(0, <<1>>)>>, <<Sec(0, <<1, 2>>), Sec(2, <<3, 1, 2>>)>>, <<Sec(1, <<1, 2>>), Sec(5, <<1, 1, 1>>)>>,
                        <<Sec(1, <<1, 2>>), Sec(5, <<1, 1, 2>>)>>, <<Sec(1, <<1, 2>>)>>, <<Sec(1, <<1, 2>>), Sec(6, <<1, 1, 1>>)>>, <<Sec(2, <<1, 2, 3, 4>>), Sec(6, <<5>>), Sec(8, <<6, 7>>)>> }
             IN { << Img(s), Img(t), SecObj(IF s = <<>> THEN Sec(0, <<>>) ELSE s[Len(s)]), SecObj(IF t = <<>> THEN Sec(0, <<>>) ELSE t[Len(t)]) >> : s \in S, t \in S }
QueryOps == { BaseOp(o, x) @@ [a |-> a] : o \in {"has"}, x \in {1, 3}, a \in -1..11 }
       \cup { BaseOp("get", 1) @@ [a |-> a] : a \in -1..11 }
       \cup { BaseOp("eq", 1) @@ [y |-> 2] } \cup { BaseOp("iter", 1), BaseOp("len", 1), BaseOp("len", 3) }
       \cup { BaseOp("item", 1) @@ [n |-> n] : n \in -4..3 } \cup { BaseOp("cmp", 3) @@ [y |-> 4] }
       \cup { BaseOp("find", 3) @@ [p |-> p] : p \in {<<1>>, <<1, 1>>, <<1, 2>>, <<6, 7>>, <<9>>} }
------------------------------------------------------------------------------
InitW == CASE Mode = "mem" -> MemInit [] Mode = "num" -> NumInit [] Mode = "arr" -> ArrInit [] Mode = "str" -> StrInit
           [] Mode = "build" -> BuildInit [] Mode = "share" -> ShareInit [] Mode = "query" -> QueryInit
Ops == CASE Mode = "mem" -> MemOps [] Mode = "num" -> NumOps [] Mode = "arr" -> ArrOps [] Mode = "str" -> StrOps
         [] Mode = "build" -> BuildOps [] Mode = "share" -> ShareOps(Len(w)) [] Mode = "query" -> QueryOps

Emit(op, f) == PrintT(ToJson([init |-> init, h |-> h, op |-> op, f |-> f, r |-> IF f = {} THEN Res(w, op) ELSE <<>>, post |-> IF f = {} THEN Post(w, op) ELSE w]))
Init == w \in InitW /\ depth = 0 /\ init = w /\ h = <<>>
Next == /\ depth < Depth
        /\ \E op \in Ops :
             LET f == Faults(w, op) IN
             /\ Emit(op, f)
             /\ w' = IF f = {} THEN Post(w, op) ELSE w
             /\ depth' = depth + 1 /\ h' = Append(h, op) /\ init' = init
Spec == Init /\ [][Next]_<<w, depth, init, h>>
View == <<w, depth>>
------------------------------------------------------------------------------
SortedDisjoint == \A k \in 1..Len(w) : w[k].k = "img" => DisjointSorted(w[k])
(* laws that speak about every pair of a world and its successors; stated as   *)
(* invariants over all operations enabled in a state                            *)
ReadAfterWrite ==
  Mode = "mem" /\ depth < Depth => \A op \in Ops : (op.o = "write" /\ Faults(w, op) = {}) =>
     LET p == Post(w, op) IN \A x \in -2..12 :
        Mem(p[1], x) = IF x >= op.a /\ x < op.a + Len(op.d) THEN op.d[x - op.a + 1] ELSE Mem(w[1], x)
InsertOnlyAdds ==
  Mode = "build" /\ depth < Depth => \A op \in Ops : (Faults(w, op) = {}) =>
     LET p == Post(w, op) IN \A x \in -2..24 :
        /\ Mem(w[1], x) # -1 => Mem(p[1], x) = Mem(w[1], x)
        /\ (op.o = "ins" /\ x >= Cursor(w, op) /\ x < Cursor(w, op) + Len(op.d)) =>
               Mem(w[1], x) = -1 /\ Mem(p[1], x) = op.d[x - Cursor(w, op) + 1]
        /\ (op.o = "join" \/ (op.o = "ins" /\ op.j)) => NothingAdjacent(p[1])
OthersUntouched ==
  Mode = "share" /\ depth < Depth => \A op \in Ops : Faults(w, op) = {} => \A k \in 1..Len(w) : (k # op.x \/ op.o = "new") => Post(w, op)[k] = w[k]
RoundTrip ==
  Mode = "num" /\ depth < Depth => \A op \in Ops : (op.o = "wn" /\ Faults(w, op) = {}) =>
     LET p == Post(w, op)
         r == Res(p, BaseOp("rn", 1) @@ [a |-> op.a, t |-> op.t])
     IN IF DTypes[op.t].k # "f" \/ DTypes[op.t].w = 8 THEN r = op.v ELSE r.f = F32toF64(F64toF32(op.v.f).b)
TextRoundTrip ==
  Mode = "str" /\ depth < Depth => \A op \in Ops : (op.o = "ws" /\ Faults(w, op) = {}) =>
     /\ Res(Post(w, op), BaseOp("rs", 1) @@ [a |-> op.a, e |-> op.e, n |-> Len(TextBytes(op.c, op.e))]) = op.c
     /\ op.e \notin Utf16Encs => Res(Post(w, op), BaseOp("rs", 1) @@ [a |-> op.a, e |-> op.e, n |-> -1]) = op.c
=============================================================================
