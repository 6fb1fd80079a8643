------------------------------ MODULE LogTrace ------------------------------
(* Histories of loggers, judged by LogModel.                                   *)
EXTENDS LogModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, w
Clause(e) ==
  IF e.x # "" THEN "refused: " \o e.op.o \o " (" \o e.x \o ")"
  ELSE IF e.out # Written(w, e.op) THEN (IF Len(e.out) > Len(Written(w, e.op)) THEN (IF Written(w, e.op) = <<>> THEN "written below the level" ELSE "written more than once")
                                         ELSE IF Len(e.out) = 0 THEN "not written" ELSE "another message written")
  ELSE IF e.r # Result(w, e.op) THEN "last message" ELSE ""
Init == c \in 1..Len(Trace) /\ i = 0 /\ w = [lv |-> [n \in {Trace[c].names[k] : k \in 1..Len(Trace[c].names)} |-> 0], of |-> <<>>, last |-> <<>>]
Next == /\ i < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[i + 1]  b == Clause(e) IN
           /\ c' = c /\ i' = IF b = "" THEN i + 1 ELSE Len(Trace[c].ev)
           /\ w' = Post(w, e.op)
           /\ b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> i + 1, key |-> "log: " \o b]))
Spec == Init /\ [][Next]_<<c, i, w>>
Consistent == Len(w.of) = Len(w.last)
=============================================================================
