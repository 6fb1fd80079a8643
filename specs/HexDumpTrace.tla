---------------------------- MODULE HexDumpTrace ----------------------------
(* Dumps printed by the code, judged by HexDump.                               *)
EXTENDS HexDump, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s
Clause(t) ==
  IF t.x # "" THEN "dump fails: " \o t.x
  ELSE IF Len(t.res) # Len(t.secs) THEN "sections missing"
  ELSE IF \E k \in 1..Len(t.res) : ~Denotes(t.res[k], t.secs[k].a, t.bits, t.secs[k].d) THEN "dump does not show the section" ELSE ""
Init == c \in 1..Len(Trace) /\ s = 0
Next == /\ s = 0 /\ s' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> Trace[c].how \o ": " \o b]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
