--------------------------- MODULE RegistryTrace ---------------------------
(* Histories of the registry, judged by RegistryModel.                         *)
EXTENDS RegistryModel, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, w
Clause(e) ==
  IF Refused(w, e.op) THEN
    IF e.x = "" THEN "not refused: " \o e.op.o
    ELSE IF e.x # (IF e.op.o = "register" THEN "CodecAlreadyExistError" ELSE "CodecDoesNotExistError") THEN "wrong error of " \o e.op.o \o ": " \o e.x
    ELSE IF e.t THEN "classes changed although refused" ELSE ""
  ELSE IF e.x # "" THEN "refused: " \o e.op.o \o " (" \o e.x \o ")"
  ELSE IF ~ResultOk(w, e.op, e.r) THEN "wrong result of " \o e.op.o ELSE ""
Init == c \in 1..Len(Trace) /\ i = 0 /\ w = Trace[c].start
Next == /\ i < Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[i + 1]  b == Clause(e) IN
           /\ c' = c /\ i' = IF b = "" THEN i + 1 ELSE Len(Trace[c].ev)
           /\ w' = Post(w, e.op)
           /\ b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> i + 1, key |-> "registry: " \o b]))
Spec == Init /\ [][Next]_<<c, i, w>>
NoDuplicates == \A k, j \in 1..Len(w) : w[k].n = w[j].n => k = j
=============================================================================
