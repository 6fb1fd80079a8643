----------------------------- MODULE Singleton -----------------------------
(* Threads asking for the instance of singleton classes, with a double-checked *)
(* lock.  Class 2 is derived from class 1.  Constants switch off the parts of  *)
(* the protocol; each such variant is refuted.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS THREADS, CALLS, SWITCHES, LOCK, RECHECK, OWN
VARIABLES pc, cls, inst, owner, made, new, got, h, calls
vars == <<pc, cls, inst, owner, made, new, got, h, calls>>

Classes == {1, 2}
Looks(k) == IF OWN \/ inst[k] # 0 THEN inst[k] ELSE IF k = 2 THEN inst[1] ELSE 0      \* what the class finds
Init == /\ pc = [t \in 1..THREADS |-> "check"]
        /\ cls \in [1..THREADS -> Classes]
        /\ inst = [k \in Classes |-> 0] /\ owner = 0 /\ made = <<>> /\ new = [t \in 1..THREADS |-> 0]
        /\ got = <<>> /\ h = <<>> /\ calls = [t \in 1..THREADS |-> 0]

Switch(t) == h # <<>> /\ h[Len(h)] # t
NSwitches == Cardinality({k \in 2..Len(h) : h[k] # h[k - 1]})
Step(t) ==
  /\ pc[t] # "done"
  /\ Switch(t) => NSwitches < SWITCHES \/ pc[h[Len(h)]] = "done" \/ (pc[h[Len(h)]] = "lock" /\ LOCK /\ owner # 0)
  /\ h' = Append(h, t) /\ cls' = cls
  /\ CASE pc[t] = "check" -> /\ pc' = [pc EXCEPT ![t] = IF Looks(cls[t]) # 0 THEN "return" ELSE "lock"]
                             /\ UNCHANGED <<inst, owner, made, new, got, calls>>
       [] pc[t] = "lock" -> /\ LOCK => owner = 0
                            /\ owner' = IF LOCK THEN t ELSE owner
                            /\ pc' = [pc EXCEPT ![t] = "recheck"] /\ UNCHANGED <<inst, made, new, got, calls>>
       [] pc[t] = "recheck" -> /\ pc' = [pc EXCEPT ![t] = IF RECHECK /\ Looks(cls[t]) # 0 THEN "unlock" ELSE "create"]
                               /\ UNCHANGED <<inst, owner, made, new, got, calls>>
       [] pc[t] = "create" -> /\ made' = Append(made, cls[t]) /\ new' = [new EXCEPT ![t] = Len(made) + 1]
                              /\ pc' = [pc EXCEPT ![t] = "publish"] /\ UNCHANGED <<inst, owner, got, calls>>
       [] pc[t] = "publish" -> /\ inst' = [inst EXCEPT ![cls[t]] = new[t]]
                               /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<owner, made, new, got, calls>>
       [] pc[t] = "unlock" -> /\ owner' = IF LOCK THEN 0 ELSE owner
                              /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<inst, made, new, got, calls>>
       [] pc[t] = "return" -> /\ got' = Append(got, [t |-> t, c |-> cls[t], i |-> Looks(cls[t])])
                              /\ calls' = [calls EXCEPT ![t] = @ + 1]
                              /\ pc' = [pc EXCEPT ![t] = IF calls[t] + 1 < CALLS THEN "check" ELSE "done"]
                              /\ UNCHANGED <<inst, owner, made, new>>
Done == \A t \in 1..THREADS : pc[t] = "done"
Next == \E t \in 1..THREADS : Step(t) /\ (Done' => PrintT(ToJson([cls |-> cls, h |-> h'])))
Spec == Init /\ [][Next]_vars

\* a returned instance is one of the class asked for, and always the same
SameInstance == \A i, j \in 1..Len(got) : got[i].c = got[j].c => got[i].i = got[j].i
RightClass == \A i \in 1..Len(got) : got[i].i # 0 /\ made[got[i].i] = got[i].c
OneEach == \A k \in Classes : Cardinality({j \in 1..Len(made) : made[j] = k}) <= 1
=============================================================================
