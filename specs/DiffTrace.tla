----------------------------- MODULE DiffTrace -----------------------------
(* Edit scripts computed by the code, judged by Diff.                          *)
EXTENDS Diff, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s
Kinds == {"bytes", "bytearray"}
\* t.shift equal bytes stand before both strings (they are not part of the record)
Clause(t0) ==
  LET t == [t0 EXCEPT !.res = [k \in 1..Len(t0.res) |-> [t0.res[k] EXCEPT !.off = @ - t0.shift]]] IN
  IF t.ka \notin Kinds \/ t.kb \notin Kinds THEN (IF t.x = "TypeError" THEN "" ELSE "argument that is no byte string: " \o (IF t.x = "" THEN "accepted" ELSE t.x)) ELSE
  IF t.x # "" THEN "fails: " \o t.x
  ELSE IF \E k \in 1..Len(t.res) : t.res[k].off < 0 THEN "entry that is not true of the inputs"
  ELSE IF ~Truthful(t.a, t.res) THEN "entry that is not true of the inputs"
  ELSE IF ~Separated(t.res) THEN "entries out of order or split"
  ELSE IF Apply(t.a, t.res) # t.b THEN "applying the differences does not give the modification"
  ELSE IF ~IsDiff(t.a, t.b, t.res) THEN "modification beyond the common part" ELSE ""
Init == c \in 1..Len(Trace) /\ s = 0
Next == /\ s = 0 /\ s' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> "diff: " \o b]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
