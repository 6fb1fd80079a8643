----------------------------- MODULE HexDumpMC -----------------------------
(* A dumper that prints rows and elides repeated ones, run over all short      *)
(* sections made of rows out of a few; one dumper dumps two sections.           *)
(* Invariant: whatever has been dumped denotes the section.                     *)
(* FRESH = FALSE is a dumper that forgets to start anew with the next section.  *)
EXTENDS HexDump, TLC, Json, IOUtils

CONSTANTS ROWS, MAXROWS, TAILS, ADDRS, FRESH
VARIABLES secs, done, pos, prev, elided, out, outs
vars == <<secs, done, pos, prev, elided, out, outs>>

Pattern(r) == CASE r = "a" -> Rep(65, 16) [] r = "b" -> [k \in 1..16 |-> k * 8 - 1] [] r = "z" -> Zeros(16)
Contents(rs, t) == Flatten([k \in 1..Len(rs) |-> Pattern(rs[k])]) \o Take(Rep(65, 16), t)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Addr(x) == CASE x = 0 -> Zeros(8) [] x = 1 -> <<0, 0, 0, 0, 1, 2, 10, 5>> [] x = 2 -> <<15, 15, 15, 15, 15, 15, 14, 0>> [] x = 3 -> <<15, 15, 15, 15, 15, 15, 15, 15>>
Sections == [a : ADDRS, rs : Seqs(ROWS, MAXROWS), t : TAILS]
Second == [a : {0}, rs : {<<>>, <<"a">>, <<"a", "a">>}, t : TAILS]

Data(k) == Contents(secs[k].rs, secs[k].t)
Init == /\ secs \in (Sections \X Second) /\ done = 0 /\ pos = 0 /\ prev = <<>> /\ elided = FALSE /\ out = <<>> /\ outs = <<>>
Step ==
  /\ done < 2
  /\ LET d == Data(done + 1)  row == RowAt(d, pos)  a == Addr(secs[done + 1].a) IN
     IF pos + Row < Len(d)
     THEN /\ pos' = pos + Row /\ prev' = row
          /\ IF row = prev THEN /\ out' = IF elided THEN out ELSE Append(out, [k |-> "*"])
                                /\ elided' = TRUE
             ELSE out' = Append(out, Print(a, 32, pos, row)) /\ elided' = FALSE
          /\ UNCHANGED <<secs, done, outs>>
     ELSE /\ outs' = Append(outs, out \o <<Print(a, 32, pos, row), [k |-> "len", n |-> Len(d)]>>)
          /\ done' = done + 1 /\ pos' = 0 /\ out' = <<>>
          /\ prev' = IF FRESH THEN <<>> ELSE prev
          /\ elided' = IF FRESH THEN FALSE ELSE elided
          /\ UNCHANGED secs
          /\ done' = 2 => PrintT(ToJson([secs |-> [k \in 1..2 |-> [a |-> Addr(secs[k].a), d |-> Data(k)]]]))
Spec == Init /\ [][Step]_vars
Faithful == \A k \in 1..Len(outs) : Denotes(outs[k], Addr(secs[k].a), 32, Data(k))
=============================================================================
