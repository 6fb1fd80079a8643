------------------------------ MODULE Helpers -------------------------------
(* The helpers of objutils.utils: what each returns.                           *)
EXTENDS Bytes, FiniteSets

RECURSIVE Zeros0(_)
\* index of the lowest bit set of a number given by its bytes; 0 for 0
BitIdx(x) == CHOOSE k \in 0..7 : (x \div Pow2(k)) % 2 = 1 /\ \A j \in 0..k - 1 : (x \div Pow2(j)) % 2 = 0
Zeros0(m) == IF m[Len(m)] = 0 THEN 8 + Zeros0(Take(m, Len(m) - 1)) ELSE BitIdx(m[Len(m)])
LowestBit(m) == IF m = <<>> THEN 0 ELSE Zeros0(m)
DigitsOf(m) == IF m = <<>> THEN <<0>> ELSE m

Pieces(d, n) == LET k == (Len(d) + n - 1) \div n IN [j \in 1..k |-> SubSeq(d, (j - 1) * n + 1, Min(j * n, Len(d)))]
Listed(args) == Flatten([j \in 1..Len(args) |-> args[j].v])

Prefix == <<47, 99, 121, 103, 100, 114, 105, 118, 101, 47>>     \* /cygdrive/
IsCyg(p) == Len(p) >= Len(Prefix) /\ Take(p, Min(Len(p), Len(Prefix))) = Prefix
Backslashes(p) == [j \in 1..Len(p) |-> IF p[j] = 47 THEN 92 ELSE p[j]]
ToWin(p) == IF ~IsCyg(p) THEN p ELSE LET q == Drop(p, Len(Prefix)) IN <<q[1], 58, 92>> \o Backslashes(Drop(q, 2))

\* keyword arguments: sequences of <<name, value>>; later ones win
Value(kw, k) == kw[CHOOSE j \in 1..Len(kw) : kw[j][1] = k /\ \A i \in j + 1..Len(kw) : kw[i][1] # k][2]
Names(kw) == {kw[j][1] : j \in 1..Len(kw)}
Merged(kw) == {<<k, Value(kw, k)>> : k \in Names(kw)}
SetOf(q) == {q[j] : j \in 1..Len(q)}

\* arguments of filler: [ty, v]; only integers are taken
FillerOk(ch, n) == ch.ty = "int" /\ ch.v \in Byte /\ n.ty = "int" /\ n.v >= 1

RECURSIVE Written(_, _)
\* writes into a view, in order
Written(f, ws) == IF ws = <<>> THEN f ELSE Written(Overlay(f, ws[1].o, ws[1].d), Tail(ws))
=============================================================================
