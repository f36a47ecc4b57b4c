---------------------------- MODULE BackupTrace ----------------------------
(* Judges what the real moco-backup does.                                  *)
EXTENDS Backup, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, w, insts, objs, rec, run, tgt
vars == <<l, bad, w, insts, objs, rec, run, tgt>>

NoDump == [n |-> 0]
Idle == [kind |-> "none"]
Start(ev) == [kind |-> ev.kind, ev |-> ev, start |-> ev.now, dump |-> NoDump, seen |-> <<>>, done |-> FALSE, prev |-> rec,
              load |-> 0, applied |-> <<>>, clean |-> TRUE, before |-> objs]
InstAt(at) == CHOOSE x \in insts : x.at = at
Of(ns, c) == {x \in insts : x.at.ns = ns /\ x.at.c = c}
Ready == {x.at.i : x \in {y \in Of(w.ns, w.c) : y.ready /\ y.pod}}
NoTgt == [sro |-> TRUE, infile |-> FALSE]

(* a uuid reported by an instance of the cluster being backed up           *)
Seen(r, ev) == IF ev.at.ns = w.ns /\ ev.at.c = w.c
               THEN [i \in DOMAIN r.seen \cup {ev.at.i} |-> IF i \in DOMAIN r.seen THEN r.seen[i] \cup (IF i = ev.at.i THEN {ev.uuid} ELSE {}) ELSE {ev.uuid}]
               ELSE r.seen
One(s) == [i \in DOMAIN s |-> CHOOSE u \in s[i] : TRUE]

DumpFaults(ev) ==
  LET x == InstAt(ev.at) IN
  If(run.kind # "backup", "C23", "a dump was taken outside a backup")
  \cup If(ev.at.ns # w.ns \/ ev.at.c # w.c, "C23", "another cluster was dumped")
  \cup If(run.kind = "backup" /\ ev.at.i \notin Ready, "C23", "an instance was dumped that is not ready")
  \cup If(run.kind = "backup" /\ (\A i \in DOMAIN run.seen : Cardinality(run.seen[i]) = 1) /\ ~ChoiceOK(rec, One(run.seen), w.prim, Ready, ev.at.i), "C23", "the wrong instance was dumped")
PutFaults(ev) ==
  If(run.kind = "restore", "C24", "a restoration stored the object " \o ev.key)
  \cup If(run.kind = "backup" /\ (ev.ns # w.ns \/ ev.c # w.c \/ ev.kind = "other"), "C23", "an object was stored under a foreign key: " \o ev.key)
  \cup If(run.kind = "backup" /\ ev.kind = "dump" /\ ev.t < run.start, "C23", "a dump was stored under an old time: " \o ev.key)
  \cup If(run.kind = "backup" /\ ev.kind = "binlog" /\ (rec.t = 0 \/ ev.t # rec.t), "C23", "binary logs were not stored next to the previous dump: " \o ev.key)

(* What a restoration should use.                                          *)
Sources == Dumps(objs, w.ns, w.c, run.ev.point)
Best == Latest(Sources)
BestLogs == Logs(objs, Best, run.ev.point)
Target(at) == at.ns = run.ev.tns /\ at.c = run.ev.tc /\ at.i = 0
LoadFaults(ev) ==
  If(run.kind # "restore", "C24", "a dump was loaded outside a restoration")
  \cup (IF run.kind = "restore"
        THEN If(~Target(ev.at), "C24", "a dump was loaded into another instance")
             \cup If(Sources = {} \/ (Sources # {} /\ Best.n # ev.n), "C24", "the dump that was loaded is not the latest one before the given time")
             \cup If(ev.schema # run.ev.schema \/ ev.users # run.ev.users, "C24", "the schema or users to restore are wrong")
        ELSE {})
ApplyFaults(ev) ==
  If(run.kind # "restore", "C24", "binary logs were applied outside a restoration")
  \cup (IF run.kind = "restore" /\ Sources # {}
        THEN If(~Target(ev.at), "C24", "binary logs were applied to another instance")
             \cup If(run.load = 0, "C24", "binary logs were applied before the dump was loaded")
             \cup If(~Increasing(ev.txns), "C24", "transactions were applied out of order")
             \cup If(Range(ev.txns) # {} /\ (BestLogs = {} \/ ~(Range(ev.txns) \subseteq UNION {Wanted(o, run.ev.point, run.ev.schema) : o \in BestLogs})), "C24", "transactions were applied that do not belong to the restored state")
        ELSE {})
StatusFaults(ev) ==
  If(~ev.rest, IF run.kind = "restore" THEN "C24" ELSE "C23", "another part of the status was changed")
  \cup If(ev.backup /\ (run.kind # "backup" \/ ev.ns # w.ns \/ ev.c # w.c), "C23", "a backup was recorded for another cluster")
  \cup If(ev.restored /\ (run.kind # "restore" \/ (run.kind = "restore" /\ (ev.ns # run.ev.tns \/ ev.c # run.ev.tc))), "C24", "another cluster was marked as restored")
  \cup (IF ev.backup /\ run.kind = "backup"
        THEN LET at == [ns |-> w.ns, c |-> w.c, i |-> ev.rec.src] IN
             RecordFaults(w.ns, w.c, objs, rec, run, IF \E x \in insts : x.at = at THEN InstAt(at) ELSE CHOOSE x \in insts : TRUE, ev.rec)
        ELSE {})
  \cup (IF ev.restored /\ run.kind = "restore"
        THEN If(run.load = 0, "C24", "the cluster was marked as restored without its dump having been loaded")
             \cup If(run.load # 0 /\ Sources # {} /\ BestLogs # {} /\
                     ~\E o \in BestLogs : Wanted(o, run.ev.point, run.ev.schema) \subseteq Range(run.applied), "C24", "the cluster was marked as restored before the binary logs were applied")
             \cup If(~tgt.sro, "C24", "the cluster was marked as restored while the instance is writable")
             \cup If(tgt.infile, "C24", "the cluster was marked as restored while local_infile is on")
        ELSE {})

Calm(ev) == ~ev.fault /\ ~ev.killed /\ ~ev.env
Whole == {x.at.i : x \in {y \in Of(w.ns, w.c) : y.pod}} = 0..(w.n - 1)
EndFaults(ev) ==
  IF run.kind = "backup"
  THEN LET can == ~w.offline /\ Whole /\ {i \in Ready : \E x \in Of(w.ns, w.c) : x.at.i = i /\ x.up} # {}
           allUp == \A i \in Ready : \E x \in Of(w.ns, w.c) : x.at.i = i /\ x.up
           src == CHOOSE x \in Of(w.ns, w.c) : x.at.i = rec.src
           b == Stored(objs, w.ns, w.c, run.prev.t, "binlog")
       IN If(ev.rc = 0 /\ ~run.done, "C23", "moco-backup reported success without having recorded the backup")
          \cup If(Calm(ev) /\ can /\ allUp /\ ~(ev.rc = 0 /\ run.done), "C23", "a backup failed without reason")
          \cup If(Calm(ev) /\ run.done /\ run.prev.t # 0 /\ rec.warn # 0
                  /\ (\E u \in Range(run.prev.uuids) : u.i = rec.src /\ u.uuid = rec.uuid)
                  /\ Covers(src, IF run.prev.src = rec.src THEN run.prev.file ELSE 0, Range(run.prev.gtid))
                  /\ (run.prev.src = rec.src => \E f \in Range(src.files) : f.n = run.prev.file),
                  "C23", "binary logs were not stored although they are complete")
          \cup If(Calm(ev) /\ run.done /\ \E o \in run.before : o.ns = w.ns /\ o.c = w.c /\ o.kind = "dump" /\ o \notin objs, "C23", "an earlier dump was overwritten")
  ELSE IF run.kind = "restore"
  THEN If(ev.rc = 0 /\ ~run.done, "C24", "moco-backup reported success although the cluster is not restored")
       \cup If(Calm(ev) /\ Sources # {} /\ Best.complete /\ (\A o \in BestLogs : o.complete) /\ ~(ev.rc = 0 /\ run.done), "C24", "a restoration failed without reason")
       \cup If(run.done /\ Sources = {}, "C24", "a cluster was restored from nothing")
  ELSE {}

Tag(ev) == IF ev.e = "end" THEN " (" \o ev.what \o ")" ELSE ""
Faults(ev) == CASE ev.e = "dump" -> DumpFaults(ev)
                [] ev.e = "put" -> PutFaults(ev)
                [] ev.e = "load" -> LoadFaults(ev)
                [] ev.e = "apply" -> ApplyFaults(ev)
                [] ev.e = "status" -> StatusFaults(ev)
                [] ev.e = "end" -> EndFaults(ev)
                [] OTHER -> {}
Report(new, ev) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2] \o Tag(ev))
NoRec == [t |-> 0]
Init == l = 1 /\ bad = {} /\ w = [ns |-> ""] /\ insts = {} /\ objs = {} /\ rec = NoRec /\ run = Idle /\ tgt = NoTgt
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] v == Faults(ev) IN
     /\ Report(v, ev) /\ bad' = bad \cup {b[1] : b \in v}
     /\ w' = IF ev.e \in {"reset", "world"} THEN ev ELSE w
     /\ insts' = IF ev.e \in {"reset", "world"} THEN Range(ev.insts) ELSE insts
     /\ objs' = CASE ev.e = "reset" -> Range(ev.objs)
                  [] ev.e = "put" -> Overwrite(objs, [k \in DOMAIN ev \ {"e"} |-> ev[k]])
                  [] OTHER -> objs
     /\ rec' = CASE ev.e = "reset" -> ev.rec
                 [] ev.e = "status" /\ ev.backup -> ev.rec
                 [] OTHER -> rec
     /\ tgt' = CASE ev.e = "reset" -> NoTgt
                 [] ev.e = "set" /\ run.kind = "restore" /\ Target(ev.at) -> [sro |-> ev.sro, infile |-> ev.infile]
                 [] OTHER -> tgt
     /\ run' = CASE ev.e = "reset" -> Idle
                 [] ev.e = "run" -> Start(ev)
                 [] ev.e = "end" -> Idle
                 [] ev.e = "seen" /\ run.kind = "backup" -> [run EXCEPT !.seen = Seen(run, ev)]
                 [] ev.e = "dump" /\ ev.ok /\ run.kind = "backup" -> [run EXCEPT !.dump = ev]
                 [] ev.e = "load" /\ ev.ok /\ run.kind = "restore" -> [run EXCEPT !.load = ev.n, !.applied = <<>>]
                 [] ev.e = "apply" /\ ev.ok /\ run.kind = "restore" -> [run EXCEPT !.applied = @ \o ev.txns]
                 [] ev.e = "status" /\ (ev.backup \/ ev.restored) /\ run.kind # "none" -> [run EXCEPT !.done = TRUE]
                 [] OTHER -> run
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
