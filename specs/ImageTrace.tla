----------------------------- MODULE ImageTrace -----------------------------
(* Validates histories recorded from objutils against ImageModel: one case    *)
(* per line, every event carries the operation, its outcome and the complete  *)
(* contents of all objects afterwards (for large images: after some of the     *)
(* events, and after the last one).                                            *)
EXTENDS ImageModel, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, w
vars == <<c, i, w>>

Snap(world) == [k \in 1..Len(world) |-> world[k].s]

Clause(e) ==
  LET f == Faults(w, e.op) IN
  IF e.x = "" THEN
    IF f # {} THEN "not refused: " \o e.op.o
    ELSE IF "w" \in DOMAIN e /\ e.w # Snap(Post(w, e.op)) THEN "wrong contents after " \o e.op.o
    ELSE IF e.r # Res(w, e.op) THEN "wrong result of " \o e.op.o
    ELSE ""
  ELSE IF f = {} THEN "refused: " \o e.op.o \o " (" \o e.x \o ")"
  ELSE IF f = {"addr"} /\ e.x # "InvalidAddressError" THEN "wrong error for " \o e.op.o \o ": " \o e.x
  ELSE IF "w" \in DOMAIN e /\ e.w # Snap(w) THEN "refused " \o e.op.o \o " changed something"
  ELSE ""

Init == c \in 1..Len(Trace) /\ i = 1 /\ w = <<>>
Next ==
  /\ i <= Len(Trace[c].ev)
  /\ LET e == Trace[c].ev[i]
         bad == Clause(e)
     IN /\ c' = c
        /\ IF bad = ""
           THEN i' = i + 1 /\ w' = IF e.x = "" THEN Post(w, e.op) ELSE w
           ELSE /\ PrintT(ToJson([fail |-> bad, case |-> c, step |-> i, key |-> bad]))
                /\ i' = Len(Trace[c].ev) + 1 /\ w' = <<>>
Spec == Init /\ [][Next]_vars

(* invariants of the model, on the histories of the real code *)
AllSortedDisjoint == \A k \in 1..Len(w) : w[k].k = "img" => DisjointSorted(w[k])
=============================================================================
