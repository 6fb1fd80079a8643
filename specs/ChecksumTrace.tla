--------------------------- MODULE ChecksumTrace ---------------------------
(* Checksums computed by the code, judged by Checksums.                        *)
EXTENDS Checksums, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s
Bad(t, st) == {k \in 1..Len(t.res) : t.res[k].x # "" \/ t.res[k].r # Result(st, t.res[k].q)}
Label(q) == IF q.f = "check" THEN q.a ELSE q.f
Init == c \in 1..Len(Trace) /\ s = 0
Next == /\ s = 0 /\ s' = 1 /\ c' = c
        /\ LET t == Trace[c]  st == After(t.frame)  b == Bad(t, st) IN
           /\ t.same \/ PrintT(ToJson([fail |-> "frame changed", case |-> c, step |-> 1, key |-> "checksum changes the frame"]))
           /\ \A k \in b : PrintT(ToJson([fail |-> Label(t.res[k].q), case |-> c, step |-> k, key |-> "checksum " \o Label(t.res[k].q)]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
