------------------------------ MODULE DwarfTrace ----------------------------
(* Results of objutils.dwarf, judged by DwarfInfo.                             *)
EXTENDS DwarfInfo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i

(* Elementary encodings: t.op, t.d (bytes); t.r, t.p what was parsed and the   *)
(* offset behind it, t.x an exception's name; t.v, t.e a value and its encoding*)
Parsed(t) ==
  CASE t.op = "uleb" -> UlebAt(t.d, 0) [] t.op = "sleb" -> SlebAt(t.d, 0)
    [] t.op \in {"u8", "u16", "u32", "u64"} -> Fixed(t.d, 0, t.w, "u", t.big) [] t.op \in {"s8", "s16", "s32", "s64"} -> Fixed(t.d, 0, t.w, "s", t.big)
    [] t.op = "address" -> Fixed(t.d, 0, t.w, "u", t.big)
    [] t.op = "block1" -> BlockOf(t.d, Fixed(t.d, 0, 1, "u", t.big)) [] t.op = "block2" -> BlockOf(t.d, Fixed(t.d, 0, 2, "u", t.big))
    [] t.op = "block4" -> BlockOf(t.d, Fixed(t.d, 0, 4, "u", t.big)) [] t.op = "block" -> BlockOf(t.d, UlebAt(t.d, 0))
    [] t.op = "string" -> StrAt(t.d, 0) [] t.op = "strp" -> Strp(t.d, 0, t.tab, t.big)
    [] t.op = "strings" -> Strings(t.d, 0) [] t.op = "files" -> Files(t.d, 0)
EncClause(t) ==
  LET r == Parsed(t) IN
  IF r.p = -1 THEN (IF t.x = "" THEN "accepted although cut short: " \o t.op ELSE "")
  ELSE IF t.x # "" THEN "refused: " \o t.op
  ELSE IF t.r # r.v THEN "value: " \o t.op
  ELSE IF t.p # r.p THEN "bytes used by " \o t.op ELSE ""
BuildClause(t) ==
  IF t.op = "uleb" /\ t.v.n THEN (IF t.x = "" THEN "negative number encoded: uleb" ELSE "")
  ELSE IF t.x # "" THEN "refused to encode: " \o t.op
  ELSE IF t.e # (CASE t.op = "uleb" -> UlebEnc(t.v) [] t.op = "sleb" -> SlebEnc(t.v)
                   [] t.op = "address" -> LET q == IntEnc(t.v, t.w) IN IF t.big THEN q ELSE Rev(q)) THEN "encoding: " \o t.op
  ELSE ""

ExprClause(t) ==
  LET r == Expr(t.d, t.w, t.big) IN
  IF r.ok = "unknown" THEN "undecided"
  ELSE IF r.ok = "short" THEN (IF t.x = "" THEN "expression cut short accepted" ELSE "")
  ELSE IF t.x # "" THEN "expression refused"
  ELSE IF t.q # r.q THEN "operations" ELSE ""

-----------------------------------------------------------------------------
ExprForms == {3, 4, 9, 10, 24}
ExprAts == {2, 42, 56, 64, 77, 8465, 8467}
AttrClause(t, got, a, asize) ==
  IF AtName(a.at) # "" /\ got.name # AtName(a.at) THEN "attribute name"
  ELSE IF got.v # a.v THEN "attribute value"
  ELSE IF a.form \in RefForms /\ got.dh # <<a.v>> THEN "display of a reference"
  ELSE IF "m" \in DOMAIN a.v /\ a.form # ImplicitConst /\ ~a.v.n /\ EnumName(AtName(a.at), NatOf(a.v.m)) # "" /\ got.dn # EnumName(AtName(a.at), NatOf(a.v.m)) THEN "name of an enumerated value"
  ELSE IF a.at \in ExprAts /\ a.form \in ExprForms /\ LET e == Expr(a.v.b, asize, t.big) IN e.ok = "yes" /\ got.de # e.q THEN "location"
  ELSE ""
First(q) == LET bad == {k \in 1..Len(q) : q[k] # ""} IN IF bad = {} THEN "" ELSE q[CHOOSE k \in bad : \A j \in bad : k <= j]
DieClause(t, got, d) ==
  IF got.depth # d.depth THEN "place of an entry"
  ELSE IF got.off # d.off THEN "offset of an entry"
  ELSE IF TagName(d.tag) # "" /\ got.tag # TagName(d.tag) THEN "tag"
  ELSE IF Len(got.attrs) # Len(d.attrs) THEN "number of attributes"
  ELSE First([k \in 1..Len(d.attrs) |-> AttrClause(t, got.attrs[k], d.attrs[k], d.asize)])
InfoClause(t) ==
  LET us == Units(t) IN
  IF \E k \in 1..Len(us) : ~us[k].ok THEN "undecided"
  ELSE IF t.x # "" THEN "refused"
  ELSE IF Len(t.units) # Len(us) THEN "number of units"
  ELSE IF \E k \in 1..Len(us) : Len(t.units[k]) # Len(us[k].dies) THEN "number of entries"
  ELSE LET ds == Flatten([k \in 1..Len(us) |-> us[k].dies])  gs == Flatten(t.units)
           bad == First([k \in 1..Len(ds) |-> DieClause(t, gs[k], ds[k])])
       IN IF bad # "" THEN bad
          ELSE IF {t.map[k] : k \in 1..Len(t.map)} # {ds[k].off : k \in 1..Len(ds)} THEN "map of entries" ELSE ""

Clause(t) == CASE t.k = "parse" -> EncClause(t) [] t.k = "build" -> BuildClause(t) [] t.k = "expr" -> ExprClause(t) [] t.k = "info" -> InfoClause(t)
Init == c \in 1..Len(Trace) /\ i = 0
Next == /\ i = 0 /\ i' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN
           \/ b = ""
           \/ b = "undecided" /\ PrintT(ToJson([undecided |-> TRUE, case |-> c]))
           \/ b \notin {"", "undecided"} /\ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> "dwarf: " \o b]))
Spec == Init /\ [][Next]_<<c, i>>
=============================================================================
