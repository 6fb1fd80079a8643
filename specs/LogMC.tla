------------------------------- MODULE LogMC --------------------------------
(* All short histories of two names' loggers.                                  *)
EXTENDS LogModel, Json
CONSTANTS MAXLEN
VARIABLES h, w, out
vars == <<h, w, out>>
Names == {"a", "b"}
Sevs == {Debug, Warn, Error}
Start == [lv |-> [n \in Names |-> 0], of |-> <<>>, last |-> <<>>]
Init == h = <<>> /\ w = Start /\ out = <<>>
Loggers == 1..Len(w.of)
Op == [o : {"new"}, name : Names, level : {Warn, Error}]
      \cup [o : {"log"}, i : Loggers, sev : Sevs, msg : {Len(h)}]
      \cup [o : {"set"}, i : Loggers, level : {[s |-> "DEBUG"], [s |-> "error"], [n |-> Critical]}]
      \cup [o : {"verbose", "silent", "last"}, i : Loggers]
\* names of levels are compared without case: the model is given the upper case one
Meant(op) == IF op.o = "set" /\ "s" \in DOMAIN op.level /\ op.level.s = "error" THEN [op EXCEPT !.level = [s |-> "ERROR"]] ELSE op
Next == \E op \in Op : /\ Len(h) < MAXLEN
                       /\ (op.o = "new" => Len(w.of) < 3)
                       /\ h' = Append(h, op) /\ w' = Post(w, Meant(op))
                       /\ out' = out \o Written(w, Meant(op))
                       /\ Len(h') < MAXLEN \/ PrintT(ToJson([ops |-> h']))
Spec == Init /\ [][Next]_vars
\* no message is written twice, nor one that was never logged, nor out of order
Once == \A k, j \in 1..Len(out) : k < j => out[k].msg < out[j].msg
Logged == \A k \in 1..Len(out) : h[out[k].msg + 1].o = "log"
\* a silenced channel carries nothing but critical messages until it is set again
Remembered == \A i \in Loggers : w.last[i] = <<>> \/ \E k \in 1..Len(h) : h[k].o = "log" /\ h[k].i = i /\ w.last[i] = <<h[k].sev, h[k].msg>>
                                  /\ \A j \in (k + 1)..Len(h) : ~(h[j].o \in {"log", "last"} /\ h[j].i = i)
=============================================================================
