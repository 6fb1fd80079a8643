--------------------------- MODULE SingletonTrace ---------------------------
(* What the threads of the real code got, judged by the invariants of          *)
(* Singleton: every call returns, all calls for a class the same object of      *)
(* that very class.                                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s
Clause(t) ==
  LET g == t.got IN
  IF ~t.finished THEN "threads do not finish"
  ELSE IF \E k \in 1..Len(g) : g[k].x # "" THEN "call fails"
  ELSE IF Len(g) # t.calls * Len(t.cls) THEN "calls lost"
  ELSE IF \E k \in 1..Len(g) : g[k].k # g[k].c THEN "instance of another class"
  ELSE IF \E k, j \in 1..Len(g) : g[k].c = g[j].c /\ g[k].i # g[j].i THEN "two instances of a class" ELSE ""
Init == c \in 1..Len(Trace) /\ s = 0
Next == /\ s = 0 /\ s' = 1 /\ c' = c
        /\ LET b == Clause(Trace[c]) IN b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> 1, key |-> "singleton: " \o b]))
Spec == Init /\ [][Next]_<<c, s>>
=============================================================================
