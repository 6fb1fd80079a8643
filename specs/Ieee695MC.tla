------------------------------ MODULE Ieee695MC -----------------------------
(* Modules built record by record: header, a section, a symbol, an external    *)
(* reference, then any records of an alphabet, in every way numbers and        *)
(* strings can be encoded.  Reading the bytes must have the effects of the     *)
(* records, in order.  Every complete module is printed and read by the code.  *)
EXTENDS Ieee695, Json
CONSTANTS MaxRecs, Alphabet, Styles
VARIABLES recs, style, st
vars == <<recs, style, st>>

Cmd(op) == CASE op = "MB" -> <<224>> [] op = "AD" -> <<236>> [] op = "NN" -> <<240>> [] op = "NX" -> <<233>> [] op = "WX" -> <<244>> [] op = "NI" -> <<232>>
             [] op = "NC" -> <<251>> [] op = "ST" -> <<230>> [] op = "SA" -> <<231>> [] op = "SB" -> <<229>> [] op = "LD" -> <<237>> [] op = "ME" -> <<225>>
             [] op = "BB" -> <<248>> [] op = "BE" -> <<249>> [] op = "TY" -> <<242>> [] op = "ASW" -> <<226, 215>> [] op = "ASS" -> <<226, 211>>
             [] op = "ASA" -> <<226, 193>> [] op = "ASB" -> <<226, 194>> [] op = "ASR" -> <<226, 210>> [] op = "ASF" -> <<226, 198>> [] op = "ASL" -> <<226, 204>>
             [] op = "ASM" -> <<226, 205>> [] op = "ASI" -> <<226, 201>> [] op = "ASN" -> <<226, 206>> [] op = "ASP" -> <<226, 208>> [] op = "ASG" -> <<226, 199>>
             [] op = "ATI" -> <<241, 201>> [] op = "ATX" -> <<241, 216>> [] op = "ATN" -> <<241, 206>>
EncNum(m, y) == IF y.num = 0 /\ Nat3(m) <= 127 THEN <<Nat3(m)>>
                ELSE LET q == IF m = <<>> \/ (y.num = 2 /\ Len(m) < 8) THEN <<0>> \o m ELSE m IN <<128 + Len(q)>> \o q
EncStr(s, y) == (CASE y.str = 0 -> <<Len(s)>> [] y.str = 1 -> <<222, Len(s)>> [] y.str = 2 -> <<223, Len(s) \div 256, Len(s) % 256>>) \o s
EncOpt(v, y) == IF v = None THEN <<>> ELSE IF Len(v[1]) = 2 /\ v[1][1] = 0 THEN <<v[1][2] + 128>> ELSE EncNum(v[1], y)
EncField(kind, v, y) == CASE kind = "n" -> EncNum(v, y) [] kind = "s" -> EncStr(v, y) [] kind = "o" -> EncOpt(v, y)
                          [] kind = "t" -> (IF v = None THEN <<>> ELSE EncStr(v[1], y)) [] kind = "b" -> <<Nat3(v)>> [] kind = "l" -> <<v[2] + 128>>
EncAll(kinds, vs, y) == Flatten([j \in 1..Len(kinds) |-> EncField(kinds[j], vs[j], y)])
Enc(r, s, y) ==
  LET o == Op(Cmd(r.op), 0)  k == MoreFields(<<>>, s, r.op, r.v) IN
  Cmd(r.op) \o EncAll(o.f, r.v, y) \o EncAll(IF r.op = "TY" THEN [j \in 1..Len(r.w) |-> "n"] ELSE k, r.w, y) \o r.d

Rec(op, v, w, d) == [op |-> op, v |-> v, w |-> w, d |-> d]
L(ch) == <<0, ch>>
Big == <<255, 255, 0, 255>>
Huge == <<128, 0, 0, 0, 0, 0, 0, 1>>
Name == <<97, 98, 195>>
Opening == << Rec("MB", <<<<99>>, Name>>, <<>>, <<>>), Rec("AD", << <<8>>, <<4>>, <<L(77)>> >>, <<>>, <<>>),
           Rec("ST", << <<1>>, L(65), L(83), L(80), Name, None >>, <<>>, <<>>), Rec("ASS", << <<1>>, <<1, 0>> >>, <<>>, <<>>),
           Rec("NI", << <<32>>, Name >>, <<>>, <<>>), Rec("NX", << <<1>>, <<95>> >>, <<>>, <<>>) >>
R == << Rec("LD", << <<3>> >>, <<>>, <<225, 0, 128>>), Rec("SB", << <<1>> >>, <<>>, <<>>), Rec("ASP", << <<1>>, Big >>, <<>>, <<>>),
        Rec("ST", << <<200>>, L(65), L(83), L(68), <<>>, <<<<1>>>> >>, <<>>, <<>>), Rec("ASS", << <<1>>, Huge >>, <<>>, <<>>), Rec("ASL", << <<1>>, Big >>, <<>>, <<>>),
        Rec("SA", << <<1>>, <<9>>, None >>, <<>>, <<>>), Rec("SA", << <<1>>, <<>>, <<<<1, 0>>>> >>, <<>>, <<>>),
        Rec("ASA", << <<1>>, <<128>> >>, <<>>, <<>>), Rec("ASB", << <<1>>, <<>> >>, <<>>, <<>>), Rec("ASR", << <<1>>, <<127>> >>, <<>>, <<>>),
        Rec("ASF", << <<1>>, <<2>> >>, <<>>, <<>>), Rec("ASM", << <<1>>, <<1>> >>, <<>>, <<>>),
        Rec("ASI", << <<32>>, Big >>, <<>>, <<>>), Rec("ATI", << <<32>>, <<>>, <<8>> >>, <<>>, <<>>), Rec("ATI", << <<32>>, <<5>>, <<19>> >>, << <<1, 2>> >>, <<>>),
        Rec("ATI", << <<32>>, <<>>, <<16>> >>, << <<1>>, <<<<1>>>>, None, None >>, <<>>), Rec("ATI", << <<32>>, <<7>>, <<16>> >>, << <<2>>, <<<<>>>>, <<Big>>, <<Name>>, <<3>> >>, <<>>),
        Rec("NI", << <<1, 0>>, <<120>> >>, <<>>, <<>>), Rec("ASI", << <<1, 0>>, <<1>> >>, <<>>, <<>>),
        Rec("WX", << <<1>>, <<4>>, Big >>, <<>>, <<>>), Rec("ATX", << <<1>>, <<2>>, <<128>>, <<>> >>, <<>>, <<>>), Rec("NX", << <<1>>, Name >>, <<>>, <<>>),
        Rec("NN", << <<255>>, Name >>, <<>>, <<>>), Rec("NC", << <<2>>, Name >>, <<>>, <<>>), Rec("ASN", << <<255>>, Big >>, <<>>, <<>>),
        Rec("TY", << <<1, 0>>, <<206>>, <<33>> >>, << <<83>>, <<>>, Big >>, <<>>), Rec("ASG", << <<190>>, Huge, <<191>> >>, <<>>, <<>>),
        Rec("ASW", << <<>>, Big >>, <<>>, <<>>), Rec("ASW", << <<7>>, <<1>> >>, <<>>, <<>>),
        Rec("ATN", << <<255>>, <<>>, <<7>> >>, << <<1, 44>>, <<>>, None, None >>, <<>>), Rec("ATN", << <<255>>, <<>>, <<19>> >>, << <<128>>, <<<<1>>>> >>, <<>>),
        Rec("ATN", << <<>>, <<>>, <<37>> >>, << <<4>>, <<128>> >>, <<>>), Rec("ATN", << <<>>, <<>>, <<38>> >>, << <<2>> >>, <<>>), Rec("ATN", << <<>>, <<>>, <<39>> >>, << <<1>> >>, <<>>),
        Rec("ATN", << <<>>, <<>>, <<40>> >>, << <<6>> >>, <<>>), Rec("ATN", << <<>>, <<>>, <<50>> >>, << <<7, 208>>, <<2>>, <<29>>, <<23>>, <<>>, <<59>> >>, <<>>),
        Rec("ATN", << <<>>, <<>>, <<51>> >>, << Name >>, <<>>), Rec("ATN", << <<>>, <<>>, <<54>> >>, << <<209>>, <<1>>, <<>>, <<L(67)>> >>, <<>>), Rec("ATN", << <<>>, <<>>, <<52>> >>, << <<1>> >>, <<>>),
        Rec("BB", << <<1>>, <<>> >>, << Name >>, <<>>), Rec("BB", << <<4>>, Big >>, << Name, <<>>, <<1, 1>>, <<8>> >>, <<>>), Rec("BB", << <<6>>, <<1>> >>, << <<>>, <<1>>, <<2>>, <<3>> >>, <<>>),
        Rec("BB", << <<5>>, <<1>> >>, << Name, <<<<7, 208>>>>, <<<<1>>>>, <<<<2>>>>, None, None, None >>, <<>>),
        Rec("BB", << <<10>>, <<1>> >>, << Name, <<>>, <<209>>, <<Name>>, <<<<7, 208>>>>, <<<<1>>>>, <<<<2>>>>, <<<<3>>>>, <<<<4>>>>, <<<<5>>>> >>, <<>>),
        Rec("BB", << <<11>>, <<1>> >>, << <<>>, <<3>>, <<1>>, Big, <<144>>, <<>> >>, <<>>),
        Rec("BE", <<>>, << >>, <<>>), Rec("BE", <<>>, << Big >>, <<>>), Rec("BE", <<>>, << <<<<128>>>> >>, <<>>), Rec("BE", <<>>, << None >>, <<>>) >>
\* what of R can follow in state s
Possible(r, s) ==
  CASE r.op = "BE" -> s.open # <<>> /\ (LET t == IF s.open = <<>> THEN 0 ELSE s.open[Len(s.open)] IN
                       IF r.w = <<>> THEN t \notin {4, 6, 11} ELSE IF r.w = <<Big>> THEN t \in {4, 6} ELSE t = 11)
    [] r.op = "ASI" -> Has(s.syms, r.v[1])
    [] OTHER -> TRUE

RECURSIVE Bytes2(_, _, _)
\* the bytes of records, and the state they lead to
Bytes2(q, s, y) == IF q = <<>> THEN <<>> ELSE Enc(q[1], s, y) \o Bytes2(Tail(q), Effect(s, q[1].op, q[1].v, q[1].w, q[1].d), y)
RECURSIVE Effects(_, _)
Effects(q, s) == IF q = <<>> THEN s ELSE Effects(Tail(q), Effect(s, q[1].op, q[1].v, q[1].w, q[1].d))
File == Bytes2(Opening \o recs \o <<Rec("ME", <<>>, <<>>, <<>>)>>, Start, style)

AllStyles == {[num |-> 0, str |-> 0], [num |-> 1, str |-> 1], [num |-> 2, str |-> 2]}
OneStyle == {[num |-> 0, str |-> 0]}
Init == recs = <<>> /\ style \in Styles /\ st = Effects(Opening, Start)
Next == /\ Len(recs) < MaxRecs
        /\ \E n \in Alphabet : Possible(R[n], st) /\ recs' = Append(recs, R[n]) /\ st' = Effect(st, R[n].op, R[n].v, R[n].w, R[n].d)
        /\ style' = style
Spec == Init /\ [][Next]_vars
Inverse == LET m == Module(File) IN m.ok = "yes" /\ [m EXCEPT !.p = 0, !.done = FALSE] = st /\ m.p = Len(File)
\* no module is accepted without its end
CutShort == \A n \in 1..Len(File) - 1 : Module(Take(File, n)).ok # "yes"
Shown == PrintT(ToJson([b |-> File]))
=============================================================================
