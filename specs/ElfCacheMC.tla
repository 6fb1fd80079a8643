----------------------------- MODULE ElfCacheMC -----------------------------
(* The cache kept beside an ELF file: a database named after the stem of the   *)
(* file (so prog.elf and prog.o share one), holding a digest of the file it    *)
(* was filled from and the rows read from it.  Opening a file goes through the *)
(* steps of ElfParser.create_db_on_demand; the process may end, or the         *)
(* database fail, at every one of them, and files may be replaced in between.  *)
(* Once = FALSE describes a loader that commits the digest before the rows:    *)
(* the invariants must fail for it.                                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps,    \* operations after the first file was written
          Paths, Versions, Once

VARIABLES file,   \* path -> version of the file (0: there is none)
          db,     \* what is committed: [st |-> "none" | "schema" | "filled", digest, rows]
          pc,     \* [at |-> step of the open that is running, p |-> path]
          view,   \* what the open that just ended shows: [p, rows]; rows 0: nothing
          ops     \* history
vars == <<file, db, pc, view, ops>>

NoDb == [st |-> "none", digest |-> 0, rows |-> 0]
Schema == [st |-> "schema", digest |-> 0, rows |-> 0]
Idle == [at |-> "idle", p |-> 0]
Shown == [p |-> 0, rows |-> 0]
Op(o, p, v, how, n) == [o |-> o, p |-> p, v |-> v, how |-> how, num |-> n, den |-> 4]

\* where an open may be cut off, in fourths of its database events
Cut(at) == CASE at = "probe" -> 0 [] at = "unlinked" -> 1 [] at = "schema" -> 1 [] at = "digest" -> 2 [] at = "rows" -> 3 [] at = "commit" -> 4

Init == /\ file = [p \in Paths |-> IF p = 1 THEN 1 ELSE 0]
        /\ db = NoDb /\ pc = Idle /\ view = Shown
        /\ ops = <<Op("write", 1, 1, "", 0)>>

More == Len(ops) <= MaxOps
Write == /\ pc = Idle /\ More
         /\ \E p \in Paths, v \in Versions, h \in {"", "rename"} :
              /\ file[p] # v
              /\ file' = [file EXCEPT ![p] = v] /\ ops' = Append(ops, Op("write", p, v, h, 0))
         /\ view' = Shown /\ UNCHANGED <<db, pc>>
Remove == /\ pc = Idle /\ More /\ db # NoDb
          /\ db' = NoDb /\ ops' = Append(ops, Op("remove", 1, 0, "", 0)) /\ view' = Shown /\ UNCHANGED <<file, pc>>
Open == /\ pc = Idle /\ More
        /\ \E p \in Paths : file[p] # 0 /\ pc' = [at |-> "probe", p |-> p]
        /\ view' = Shown /\ UNCHANGED <<file, db, ops>>

v == file[pc.p]
Step(a, b) == pc.at = a /\ pc' = [pc EXCEPT !.at = b] /\ UNCHANGED <<file, view, ops>>
Probe == /\ pc.at = "probe"
         /\ IF db.st = "filled" /\ db.digest = v
            THEN pc' = Idle /\ view' = [p |-> pc.p, rows |-> db.rows] /\ ops' = Append(ops, Op("open", pc.p, 0, "", 0)) /\ UNCHANGED <<file, db>>
            ELSE Step("probe", "unlinked") /\ db' = NoDb
MakeSchema == Step("unlinked", "schema") /\ db' = Schema
Digest == Step("schema", "digest") /\ db' = IF Once THEN db ELSE [st |-> "filled", digest |-> v, rows |-> 0]
Rows == Step("digest", "rows") /\ UNCHANGED db
Commit == /\ pc.at = "rows"
          /\ db' = [st |-> "filled", digest |-> v, rows |-> v]
          /\ pc' = Idle /\ view' = [p |-> pc.p, rows |-> v] /\ ops' = Append(ops, Op("open", pc.p, 0, "", 0)) /\ UNCHANGED file
\* the process ends, or the database refuses the next operation
Cutoff == /\ pc.at # "idle"
          /\ \E o \in {"crash", "error"} : ops' = Append(ops, Op(o, pc.p, 0, "", Cut(pc.at)))
          /\ pc' = Idle /\ view' = Shown /\ UNCHANGED <<file, db>>
\* ... or just after the commit
Late == /\ pc.at = "rows"
        /\ db' = [st |-> "filled", digest |-> v, rows |-> v] /\ ops' = Append(ops, Op("crash", pc.p, 0, "", 4))
        /\ pc' = Idle /\ view' = Shown /\ UNCHANGED file

\* histories end with an undisturbed open of every file
RECURSIVE Opens(_)
Opens(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE x \in ps : \A y \in ps : x <= y IN <<Op("open", p, 0, "", 0)>> \o Opens(ps \ {p})
Report == /\ pc = Idle /\ Len(ops) = MaxOps + 1
          /\ pc' = [at |-> "end", p |-> 0]
          /\ PrintT(ToJson([ops |-> ops \o Opens({p \in Paths : file[p] # 0})]))
          /\ UNCHANGED <<file, db, view, ops>>

Next == Write \/ Remove \/ Open \/ Probe \/ MakeSchema \/ Digest \/ Rows \/ Commit \/ (pc.p # 0 /\ Cutoff) \/ Late \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a cache that carries a digest is complete
CacheComplete == db.st = "filled" => db.rows = db.digest
\* what a parser shows is the file as it is
ViewCurrent == view.rows # 0 => view.rows = file[view.p]
\* only the running open can leave the cache half made, and only as an empty schema
NoHalf == pc = Idle => db.st \in {"none", "schema"} \/ db.rows \in Versions
=============================================================================
