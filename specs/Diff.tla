-------------------------------- MODULE Diff --------------------------------
(* Differences between two byte strings: an edit script of M(odify) entries    *)
(* and at most one A(ppend) or D(elete) at the end.  An entry is               *)
(* [t, off, a, b]; a and b are <<>> where the code says None.                  *)
EXTENDS Bytes

Apply(s, ds) ==
  LET RECURSIVE go(_, _)
      go(x, k) == IF k > Len(ds) THEN x
                  ELSE LET d == ds[k] IN
                       go(CASE d.t = "M" -> Overlay(x, d.off, d.b) [] d.t = "A" -> x \o d.b [] d.t = "D" -> Take(x, d.off), k + 1)
  IN go(s, 1)

\* what an entry says about the originals is true
Truthful(s, ds) == \A k \in 1..Len(ds) : LET d == ds[k] IN
  CASE d.t = "M" -> d.off + Len(d.a) <= Len(s) /\ Slice(s, d.off, Len(d.a)) = d.a /\ Len(d.a) = Len(d.b) /\ d.a # <<>> /\ \A j \in 1..Len(d.a) : d.a[j] # d.b[j]
    [] d.t = "A" -> k = Len(ds) /\ d.off = Len(s) /\ d.a = <<>> /\ d.b # <<>>
    [] d.t = "D" -> k = Len(ds) /\ d.b = <<>> /\ d.a # <<>> /\ d.off <= Len(s) /\ Drop(s, d.off) = d.a
    [] OTHER -> FALSE
\* ascending, apart from each other: every maximal run is one entry
Separated(ds) == \A k \in 1..(Len(ds) - 1) : (ds[k].t = "M" /\ ds[k + 1].t = "M") => ds[k].off + Len(ds[k].a) < ds[k + 1].off

IsDiff(s, u, ds) == Truthful(s, ds) /\ Separated(ds) /\ Apply(s, ds) = u
                    /\ \A k \in 1..Len(ds) : ds[k].t = "M" => ds[k].off + Len(ds[k].a) <= Min(Len(s), Len(u))

(* The scan that produces it. *)
Entry(t, off, a, b) == [t |-> t, off |-> off, a |-> a, b |-> b]
Diff(s, u) ==
  LET n == Min(Len(s), Len(u))
      RECURSIVE run(_, _)      \* end of the run of differences starting at p
      run(p, q) == IF q <= n /\ s[q] # u[q] THEN run(p, q + 1) ELSE q
      RECURSIVE scan(_)
      scan(p) == IF p > n THEN <<>>
                 ELSE IF s[p] = u[p] THEN scan(p + 1)
                 ELSE LET q == run(p, p) IN <<Entry("M", p - 1, SubSeq(s, p, q - 1), SubSeq(u, p, q - 1))>> \o scan(q)
  IN scan(1) \o (IF Len(u) > n THEN <<Entry("A", n, <<>>, Drop(u, n))>> ELSE IF Len(s) > n THEN <<Entry("D", n, Drop(s, n), <<>>)>> ELSE <<>>)
=============================================================================
