------------------------------- MODULE DwarfMC ------------------------------
(* Trees of entries built step by step - a unit begins, an entry without       *)
(* children is added, one with children is opened, the innermost open one is   *)
(* closed -, encoded and read back by DwarfInfo.  Every file is printed and    *)
(* opened by the code.                                                         *)
EXTENDS DwarfInfo, Json
CONSTANTS MaxDies, MaxUnits, Templates

VARIABLES us, cfg, done
vars == <<us, cfg, done>>
\* us: units, each [items, open]: items are [t |-> template or 0 for a null entry]

\* templates: tag, children, attributes (number, form)
T == << [tag |-> 17, kids |-> TRUE,  as |-> << <<3, 8>>, <<19, 11>>, <<17, 1>> >>],
        [tag |-> 52, kids |-> FALSE, as |-> << <<73, 19>>, <<2, 24>>, <<3, 14>>, <<63, 25>> >>],
        [tag |-> 46, kids |-> TRUE,  as |-> << <<1, 17>>, <<58, 33>>, <<64, 24>>, <<28, 13>>, <<63, 25>> >>],
        [tag |-> 36, kids |-> FALSE, as |-> << <<62, 33>>, <<11, 15>>, <<3, 31>>, <<28, 3>> >>],
        [tag |-> 11, kids |-> TRUE,  as |-> <<>>],
        [tag |-> 13, kids |-> FALSE, as |-> << <<56, 10>>, <<73, 21>>, <<12287, 12>>, <<28, 7>> >>],
        [tag |-> 33, kids |-> TRUE,  as |-> << <<73, 18>>, <<58, 33>> >>],
        [tag |-> 24, kids |-> FALSE, as |-> <<>>] >>

Put(m, w, big) == LET q == PadTo(m, w) IN IF big THEN q ELSE Rev(q)
N2(n) == StripZeros(<<n \div 65536, (n \div 256) % 256, n % 256>>)
StrTab == <<0, 97, 98, 0, 195, 164, 0>>
Small(n) == [n |-> FALSE, m |-> N2(n)]
\* the n-th value of a form: its bytes
Enc(f, n, x) ==
  CASE f = 1 -> Put(IF n % 2 = 0 THEN N2(n) ELSE <<255>> \o Zeros(x.asize - 1), x.asize, x.big)
    [] f = 8 -> (IF n % 3 = 0 THEN <<>> ELSE <<97 + n>>) \o <<0>>
    [] f = 14 -> Put(N2(<<1, 4, 2, 0>>[(n % 4) + 1]), 4, x.big)
    [] f = 31 -> Put(N2(<<4, 1, 3>>[(n % 3) + 1]), 4, x.big)
    [] f = 11 -> <<(n * 7) % 256>> [] f = 12 -> <<n % 2>>
    [] f = 17 -> <<n % 256>> [] f = 18 -> Put(N2(n * 100), 2, x.big) [] f = 19 -> Put(N2(n), 4, x.big)
    [] f = 7 -> Put(IF n % 2 = 0 THEN <<128>> \o Zeros(7) ELSE <<n>>, 8, x.big)
    [] f \in {15, 21} -> UlebEnc(Small(n * 50)) [] f = 13 -> SlebEnc([n |-> n % 2 = 1, m |-> N2(n * 40 + 1)])
    [] f = 24 -> IF n % 2 = 0 THEN <<2, 145>> \o <<100>> ELSE <<x.asize + 1, 3>> \o Put(<<255>> \o Zeros(x.asize - 1), x.asize, x.big)
    [] f = 10 -> <<2, 35, 4>> [] f = 3 -> Put(<<3>>, 2, x.big) \o <<1, 2, n % 256>>
    [] OTHER -> <<>>                                   \* flag_present, implicit_const
Const(t) == [n |-> t % 2 = 0, m |-> <<64 + t>>]         \* -66, 67, -68, ...

Code(t, x) == IF x.wide THEN 200 * t ELSE t
Decl(t, x) == UlebEnc(Small(Code(t, x))) \o UlebEnc(Small(T[t].tag)) \o <<IF T[t].kids THEN 1 ELSE 0>>
              \o Flatten([k \in 1..Len(T[t].as) |-> UlebEnc(Small(T[t].as[k][1])) \o UlebEnc(Small(T[t].as[k][2])) \o (IF T[t].as[k][2] = 33 THEN SlebEnc(Const(t)) ELSE <<>>)])
              \o <<0, 0>>
\* the second unit has a table of its own, or shares the first one's
Abbrev(x) == Flatten([t \in 1..Len(T) |-> Decl(Len(T) + 1 - t, x)]) \o <<0>>
AbbrevOff(x, k) == IF x.share \/ k = 1 THEN 0 ELSE Len(Abbrev(x))

Item(it, n, x) == IF it = 0 THEN <<0>>
                  ELSE UlebEnc(Small(Code(it, x))) \o Flatten([k \in 1..Len(T[it].as) |-> Enc(T[it].as[k][2], n + k, x)])
Body(u, x) == Flatten([k \in 1..Len(u.items) |-> Item(u.items[k], k, x)])
UnitBytes(u, x, k) ==
  LET b == Body(u, x)  five == x.ver = 5
      h == Put(N2(x.ver), 2, x.big) \o (IF five THEN <<IF k = 1 THEN 1 ELSE 3, x.asize>> \o Put(N2(AbbrevOff(x, k)), 4, x.big)
                                        ELSE Put(N2(AbbrevOff(x, k)), 4, x.big) \o <<x.asize>>)
  IN Put(N2(Len(h) + Len(b)), 4, x.big) \o h \o b
Info == Flatten([k \in 1..Len(us) |-> UnitBytes(us[k], cfg, k)])
Case == [info |-> Info, ab |-> IF cfg.share \/ Len(us) = 1 THEN Abbrev(cfg) ELSE Abbrev(cfg) \o Abbrev(cfg), str |-> StrTab, lstr |-> StrTab, big |-> cfg.big, w |-> cfg.w]

-----------------------------------------------------------------------------
Cfgs == { x \in [big : BOOLEAN, w : {4, 8}, asize : {2, 4, 8}, ver : {2, 4, 5}, wide : BOOLEAN, share : BOOLEAN] :
          x.asize = (IF x.w = 4 /\ x.ver = 4 THEN 2 ELSE x.w) /\ (x.wide = (x.ver = 4)) /\ (x.share = ~x.big) }
Init == us = <<>> /\ cfg \in Cfgs /\ done = FALSE
Dies == LET n(u) == Len(SelectSeq(u.items, LAMBDA t : t # 0)) IN Sum([k \in 1..Len(us) |-> n(us[k])])
L == Len(us)
AddItem(t, o) == us' = [us EXCEPT ![L] = [items |-> Append(@.items, t), open |-> o]]
Begin == L < MaxUnits /\ (IF L = 0 THEN TRUE ELSE us[L].open = 0) /\ us' = Append(us, [items |-> <<1>>, open |-> 1])
Add == L > 0 /\ us[L].open > 0 /\ Dies < MaxDies /\ \E t \in Templates : AddItem(t, us[L].open + (IF T[t].kids THEN 1 ELSE 0))
Close == L > 0 /\ us[L].open > 0 /\ AddItem(0, us[L].open - 1)
\* null entries at the end of a unit may be left out
Finish == L > 0 /\ done' = TRUE /\ UNCHANGED <<us, cfg>>
Next == ~done /\ (((Begin \/ Add \/ Close) /\ UNCHANGED <<cfg, done>>) \/ Finish)
Shown == done => PrintT(ToJson(Case))
Spec == Init /\ [][Next]_vars

RECURSIVE Depths(_, _)
Depths(items, d) == IF items = <<>> THEN <<>> ELSE IF items[1] = 0 THEN Depths(Tail(items), d - 1)
                    ELSE <<[tag |-> T[items[1]].tag, depth |-> d]>> \o Depths(Tail(items), IF T[items[1]].kids THEN d + 1 ELSE d)
\* what is read is what was built
Inverse == done => LET r == Units(Case) IN
  /\ Len(r) = L
  /\ \A k \in 1..L : r[k].ok /\ [j \in 1..Len(r[k].dies) |-> [tag |-> r[k].dies[j].tag, depth |-> r[k].dies[j].depth]] = Depths(us[k].items, 0)
\* offsets grow, references stay inside of numbers, constants come from the declaration
Sane == done => LET r == Units(Case) IN \A k \in 1..L : \A j \in 1..Len(r[k].dies) :
  /\ j = 1 \/ r[k].dies[j - 1].off < r[k].dies[j].off
  /\ LET d == r[k].dies[j] IN \A q \in 1..Len(d.attrs) : d.attrs[q].form = 33 => \E t \in 1..Len(T) : T[t].tag = d.tag /\ d.attrs[q].v = Const(t)
=============================================================================
