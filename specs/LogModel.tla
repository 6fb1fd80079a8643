------------------------------ MODULE LogModel ------------------------------
(* Loggers (objutils.logger).  All loggers of a name share one channel with a   *)
(* level - the one set last, by creating a logger or by any of them -; a        *)
(* message is written once if it is as severe as the level, otherwise not.      *)
(* Each logger remembers its last message until asked for it.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Debug == 10  Info == 20  Warn == 30  Error == 40  Critical == 50
LevelName(s) == CASE s = Debug -> "DEBUG" [] s = Info -> "INFO" [] s = Warn -> "WARNING" [] s = Error -> "ERROR" [] s = Critical -> "CRITICAL" [] OTHER -> "Level " \o ToString(s)
\* levels are given as numbers or by name, in any case; an unknown name stands for WARN
Level(l) == IF "n" \in DOMAIN l THEN l.n
            ELSE CASE l.s = "DEBUG" -> Debug [] l.s = "INFO" -> Info [] l.s = "ERROR" -> Error [] l.s = "CRITICAL" -> Critical [] OTHER -> Warn

\* w: [lv |-> name -> level (0: no logger yet), of |-> logger -> name, last |-> logger -> <<>> or <<severity, message>>]
Post(w, op) ==
  CASE op.o = "new"     -> [lv |-> [w.lv EXCEPT ![op.name] = op.level], of |-> Append(w.of, op.name), last |-> Append(w.last, <<>>)]
    [] op.o = "log"     -> [w EXCEPT !.last[op.i] = <<op.sev, op.msg>>]
    [] op.o = "set"     -> [w EXCEPT !.lv[w.of[op.i]] = Level(op.level)]
    [] op.o = "verbose" -> [w EXCEPT !.lv[w.of[op.i]] = Debug]
    [] op.o = "silent"  -> [w EXCEPT !.lv[w.of[op.i]] = Critical]
    [] op.o = "last"    -> [w EXCEPT !.last[op.i] = <<>>]
\* what is written: <<>> or one line
Written(w, op) == IF op.o = "log" /\ op.sev >= w.lv[w.of[op.i]] THEN <<[level |-> LevelName(op.sev), name |-> w.of[op.i], msg |-> op.msg]>> ELSE <<>>
Result(w, op) == IF op.o = "last" THEN w.last[op.i] ELSE <<>>
=============================================================================
