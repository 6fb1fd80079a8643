------------------------------ MODULE HexTrace ------------------------------
(* Files written and read by the codecs of objutils, judged by HexFormats.     *)
EXTENDS HexFormats, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done

RECURSIVE BinR(_, _)
\* plain binary: sections in order, gaps filled
BinR(secs, f) ==
  IF Len(secs) = 1 THEN secs[1].d
  ELSE LET e == AddP(secs[1].a, Len(secs[1].d))
           g == (secs[2].a[1] - e[1]) * 65536 + (secs[2].a[2] - e[2])
       IN secs[1].d \o Rep(f, g) \o BinR(Tail(secs), f)

(* SHF: the harness parses the XML and checks the SHA-1 (see DESIGN.md)        *)
ShfChunks(bl) == [i \in 1..Len(bl) |-> [a |-> bl[i].a, d |-> HexPairs(bl[i].t)]]
ShfGood(b) == {b.has[i] : i \in 1..Len(b.has)} = {"name", "address", "length", "word_size", "checksum"} /\ AllHex(b.t) /\ b.len * b.ws * 2 = Len(b.t) /\ b.sha

WriteCase(t) ==
  LET f == IF t.fmt \in {"bin", "shf"} \/ t.img = <<>> THEN {} ELSE WriteFaults(t.fmt, t.img, t.opts) IN
  IF t.badopt THEN (IF t.x = "" THEN "an option that does not exist, or a filler that is not one byte, is accepted" ELSE "")
  ELSE IF t.x # "" THEN (IF f = {} THEN "refused to write: " \o t.x ELSE "")
  ELSE IF f # {} THEN "not refused: " \o (IF "range" \in f THEN "address out of range" ELSE "row too long")
  ELSE IF t.img = <<>> THEN (IF t.bytes = <<>> THEN "" ELSE "an empty image is written as an empty file")
  ELSE IF t.fmt = "bin" THEN (IF t.bytes = BinR(t.img, t.opts.fill) THEN "" ELSE "wrong bytes")
  ELSE IF t.fmt = "shf" THEN
         IF \E i \in 1..Len(t.blocks) : ~ShfGood(t.blocks[i]) THEN "inconsistent block"
         ELSE IF Denotes(ShfChunks(t.blocks)) # Denotes(t.img) THEN "the file denotes another image"
         ELSE IF t.count # Len(t.blocks) THEN "wrong number of blocks" ELSE ""
  ELSE WriteClause(t.fmt, t.img, t.opts, t.lines, t.head, t.entry)

ReadCase(t) ==
  IF t.fmt = "shf" THEN
    \* blocks that are inconsistent are dropped
    LET good == SelectSeq(t.blocks, ShfGood) IN
    IF t.x # "" THEN (IF Len(good) = Len(t.blocks) THEN "refused: " \o t.x ELSE "")
    ELSE IF Denotes(t.img) # Denotes(ShfChunks(good)) THEN "image differs from the file" ELSE ""
  ELSE IF t.fmt = "bin" THEN
    IF t.x # "" THEN "refused: " \o t.x ELSE IF Denotes(t.img) # <<[a |-> t.at, d |-> t.bytes]>> THEN "image differs from the file" ELSE ""
  ELSE
    LET r == Read(t.fmt, t.lines) IN
    CASE r.st = "unknown" -> ""
      [] r.st = "bad" -> IF t.x = "" THEN "corrupted record accepted" ELSE ""
      [] OTHER -> IF t.x # "" THEN "refused: " \o t.x
                  ELSE IF t.img # r.img THEN "image differs from the file"
                  ELSE IF t.fmt = "srec" /\ t.head # (LET h == SelectSeq([i \in 1..Len(t.lines) |-> Line("srec", t.lines[i])], LAMBDA q : q.k = "head")
                                                      IN [i \in 1..Len(h) |-> [a |-> h[i].a, d |-> h[i].d]]) THEN "header records lost"
                  ELSE ""

\* an image converted through a chain of formats
ChainCase(t) == IF t.x # "" THEN "conversion failed: " \o t.x ELSE IF t.to # Denotes(t.img) THEN "conversion changed the image" ELSE ""
\* two ways of doing the same: via a file and via a string
AllSame(q) == \A i \in 1..Len(q) : q[i].x = q[1].x /\ q[i].v = q[1].v
SameCase(t) == IF ~AllSame(t.res) THEN "written differently" ELSE IF ~AllSame(t.got) THEN "read differently" ELSE ""

\* more data records than 16 bits can count: t.rows of them, the lines t.count
ManyCase(t) == IF t.x # "" THEN "many records: " \o t.x
               ELSE IF Len(t.count) # 1 \/ t.others # 0 THEN "records missing or superfluous"
               ELSE LET q == Line("srec", t.count[1]) IN
                    IF q.k # "count" THEN "malformed record count" ELSE IF q.a # t.rows THEN "wrong record count" ELSE IF ~t.same THEN "the file denotes another image" ELSE ""

Clause(t) == CASE t.kind = "many" -> ManyCase(t) [] t.kind = "write" -> WriteCase(t) [] t.kind = "read" -> ReadCase(t) [] t.kind = "chain" -> ChainCase(t) [] t.kind = "same" -> SameCase(t)

\* how many read cases the specification really decides (printed at the end)
Init == c \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ LET b == Clause(Trace[c]) IN
           /\ (Trace[c].kind = "read" /\ Trace[c].fmt \notin {"shf", "bin"} /\ Read(Trace[c].fmt, Trace[c].lines).st = "unknown") => PrintT(ToJson([undecided |-> c, fmt |-> Trace[c].fmt]))
           /\ b = "" \/ PrintT(ToJson([fail |-> b, case |-> c, step |-> 0, key |-> Trace[c].kind \o " " \o Trace[c].fmt \o ": " \o b]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
