----------------------------- MODULE Ieee695Trace ---------------------------
(* What objutils.ieee695.Reader knows after reading a module, judged by        *)
(* Ieee695: t.b the bytes, t.x an exception's name.                            *)
EXTENDS Ieee695, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
Elems(q) == {q[j] : j \in 1..Len(q)}
Same(q, r) == Len(q) = Len(r) /\ Elems(q) = Elems(r)
Clause(t) ==
  LET s == Module(t.b) IN
  IF s.ok = "unknown" THEN "undecided"
  ELSE IF s.ok = "bad" THEN (IF t.x = "" THEN "accepted although malformed" ELSE "")
  ELSE IF t.x # "" THEN "refused"
  ELSE IF \E f \in DOMAIN s.h : t.h[f] # s.h[f] THEN "header: " \o (CHOOSE f \in DOMAIN s.h : t.h[f] # s.h[f])
  ELSE IF ~Same(t.asw, s.asw) THEN "pointers to parts"
  ELSE IF ~Same(t.secs, s.secs) THEN "sections"
  ELSE IF ~Same(t.syms, s.syms) THEN "symbols"
  ELSE IF ~Same(t.exts, s.exts) THEN "external symbols"
  ELSE IF ~Same(t.names, s.names) THEN "names"
  ELSE IF ~Same(t.ctxs, s.ctxs) THEN "contexts"
  ELSE IF t.tree # s.tree THEN "blocks"
  ELSE IF t.data # s.data THEN "data" ELSE ""
Init == c \in 1..Len(Trace) /\ i = 0
Next == /\ i = 0 /\ i' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN
           \/ b = ""
           \/ b = "undecided" /\ PrintT(ToJson([undecided |-> TRUE, case |-> c]))
           \/ b \notin {"", "undecided"} /\ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> "ieee695: " \o b]))
Spec == Init /\ [][Next]_<<c, i>>
=============================================================================
