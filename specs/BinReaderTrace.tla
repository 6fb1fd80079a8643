--------------------------- MODULE BinReaderTrace ---------------------------
(* Histories of a reader, judged by BinReader.  p: the position, -1 when it is *)
(* unknown (after a failed operation).                                         *)
EXTENDS BinReader, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, p
Clause(t, e) ==
  IF e.op = "seek" THEN (IF e.p # e.a THEN "position" ELSE "")
  ELSE IF p < 0 THEN ""
  ELSE LET n == Needs(t.d, p, e.op) IN
    IF n = 0 THEN (IF e.x = "" THEN "reads beyond the end: " \o e.op ELSE "")
    ELSE IF e.x # "" THEN "refused: " \o e.op
    ELSE IF e.r # Value(t.d, p, e.op, t.o) THEN "value: " \o e.op
    ELSE IF e.p # p + n THEN "position after " \o e.op ELSE ""
Init == c \in 1..Len(Trace) /\ i = 0 /\ p = 0
Next == /\ i < Len(Trace[c].ev)
        /\ LET t == Trace[c]  e == t.ev[i + 1]  b == Clause(t, e) IN
           /\ c' = c
           /\ i' = IF b = "" THEN i + 1 ELSE Len(t.ev)
           /\ p' = IF e.x # "" THEN -1 ELSE e.p
           /\ b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> i + 1, key |-> "reader: " \o b]))
           /\ t.size = Len(t.d) \/ PrintT(ToJson([fail |-> "size", case |-> c, step |-> i + 1, key |-> "reader: size"]))
Spec == Init /\ [][Next]_<<c, i, p>>
=============================================================================
