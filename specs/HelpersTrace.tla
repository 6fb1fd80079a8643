----------------------------- MODULE HelpersTrace ---------------------------
(* Results of the helpers of objutils.utils, judged by Helpers.                *)
EXTENDS Helpers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s
Good(t) ==
  CASE t.op = "ffs" -> t.r = LowestBit(t.v)
    [] t.op = "int_to_array" -> t.r = DigitsOf(t.v)
    [] t.op = "slicer" -> t.r = Pieces(t.d, t.n) /\ t.same
    [] t.op = "make_list" -> t.r = Listed(t.args)
    [] t.op = "cygpath" -> t.r = ToWin(t.d)
    [] t.op = "extract" -> t.r = SubSeq(t.d, t.o + 1, Min(Len(t.d), t.o + t.n))
    [] t.op = "filler" -> t.r = Rep(t.ch.v, t.n.v)
    [] t.op = "buffer" -> t.r = t.d
    [] t.op = "curry" -> \A j \in 1..Len(t.calls) : LET q == t.calls[j] IN
                          q.ra = t.pend \o q.a /\ SetOf(q.rk) = Merged(t.kw \o q.kw) /\ Len(q.rk) = Cardinality(SetOf(q.rk))
    [] t.op = "view" -> t.seen = t.d /\ t.r = (IF t.w THEN Written(t.d, t.ws) ELSE t.d) /\ t.refused = (IF t.w THEN 0 ELSE Len(t.ws)) /\ (~t.w \/ t.after = t.r)
    [] t.op = "enums" -> \A j \in 1..Len(t.f) : LET q == t.f[j] IN
                          IF \E k \in 1..Len(t.map) : t.map[k][1] = q.v THEN q.x = "" /\ q.r = (CHOOSE m \in SetOf(t.map) : m[1] = q.v)[2] ELSE q.x = "ValueError"
Clause(t) == IF t.op = "filler" /\ ~FillerOk(t.ch, t.n) THEN IF t.x = "" THEN "filler: not refused" ELSE ""
             ELSE IF t.x # "" THEN t.op \o " fails: " \o t.x ELSE IF ~Good(t) THEN t.op ELSE ""
Init == c \in 1..Len(Trace) /\ s = 0
Next == /\ s = 0 /\ s' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> "helper: " \o b]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
