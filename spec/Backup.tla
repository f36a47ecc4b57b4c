------------------------------ MODULE Backup ------------------------------
(* Backups to and restorations from an object storage.                    *)
(*                                                                        *)
(* An instance has its identity (uuid), the transactions it has executed, *)
(* and binary log files; transactions executed but in no file were purged *)
(* or came with a clone.                                                  *)
(* inst:   [at |-> [ns, c, i], uuid, up, ready, pod, exec, files]         *)
(* files:  sequence of [n |-> number, t |-> sequence of transactions]     *)
(* object: [ns, c, t, kind \in {"dump", "binlog", "other"}, complete,     *)
(*          txns, bt, n] -- complete: it can be unpacked and has all parts *)
(* record: [t, src, uuid, uuids, file, gtid, warn] in the status of the   *)
(*         cluster; t = 0 if there is none                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, p, t) == IF c THEN {<<p, t>>} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
Minus(s, x) == [k \in DOMAIN s \ {x} |-> s[k]]

InFiles(inst, from) == UNION {Range(f.t) : f \in {g \in Range(inst.files) : g.n >= from}}
Exec(inst) == Range(inst.exec)
(* Everything the instance has that is not in the dump is in its files.   *)
Covers(inst, from, gtid) == (Exec(inst) \ gtid) \subseteq InFiles(inst, from)

Same(o, ns, c, t, kind) == o.ns = ns /\ o.c = c /\ o.t = t /\ o.kind = kind
Stored(objs, ns, c, t, kind) == {o \in objs : Same(o, ns, c, t, kind)}
Overwrite(objs, o) == {x \in objs : x.key # o.key} \cup {o}

(* Which instance to dump: with an earlier backup, one that has not been  *)
(* replaced since, first of all the same as before, a replica if possible. *)
(* seen: function from index to the uuid that was reported               *)
Unchanged(rec, seen) == {i \in DOMAIN seen : \E u \in Range(rec.uuids) : u.i = i /\ u.uuid = seen[i]}
ChoiceOK(rec, seen, prim, ready, src) ==
  LET c == IF rec.t = 0 THEN {} ELSE Unchanged(rec, seen) IN
  IF c # {}
  THEN IF rec.src \in c \ {prim} THEN src = rec.src ELSE IF c \ {prim} # {} THEN src \in c \ {prim} ELSE src = prim
  ELSE IF ready \ {prim} # {} THEN src \in ready \ {prim} ELSE src = prim /\ prim \in ready

(* What may be recorded by a run that dumped `dump` (the last dump of the *)
(* run) of instance `inst`.                                               *)
RecordFaults(ns, c, objs, old, run, inst, rec) ==
  LET d == Stored(objs, ns, c, rec.t, "dump")
      b == Stored(objs, ns, c, old.t, "binlog")
      good == {o \in d : o.complete /\ run.dump.n = o.n}
      gtid == Range(rec.gtid)
  IN If(rec.t = 0 \/ rec.t < run.start, "C23", "the recorded time is not that of this backup")
     \cup If(run.dump.n = 0, "C23", "a backup was recorded without a dump")
     \cup If(good = {}, "C23", "the recorded dump is not completely stored")
     \cup If(run.dump.n # 0 /\ Range(run.dump.txns) # gtid, "C23", "the recorded transactions are not those of the dump")
     \cup If(run.dump.n # 0 /\ (run.dump.at.i # rec.src \/ run.dump.at.ns # ns \/ run.dump.at.c # c), "C23", "the dump is not of the recorded instance")
     \cup If(run.dump.n # 0 /\ run.dump.uuid # rec.uuid, "C23", "the recorded server UUID is not that of the dumped server")
     \cup UNION {If(u.i \notin DOMAIN run.seen \/ u.uuid \notin run.seen[u.i], "C23", "a server UUID was recorded that the instance did not report") : u \in Range(rec.uuids)}
     \cup If(inst.uuid = rec.uuid /\ (\E f \in Range(inst.files) : f.n < rec.file /\ ~(Range(f.t) \subseteq gtid)), "C23", "the recorded binary log is too new for the dump")
     \cup If(old.t # 0 /\ rec.warn = 0 /\ ~\E o \in b : o.complete /\ gtid \subseteq (Range(old.gtid) \cup Range(o.txns)), "C23", "transactions between two backups are missing and there is no warning")
     \cup If(\A o \in d : rec.dsize # o.size, "C23", "the recorded size of the dump is wrong")
     \cup If(rec.bsize # 0 /\ \A o \in b : rec.bsize # o.size, "C23", "the recorded size of the binary logs is wrong")

(* Restoration.                                                           *)
Dumps(objs, ns, c, point) == {o \in objs : o.ns = ns /\ o.c = c /\ o.kind = "dump" /\ o.t <= point}
Latest(S) == CHOOSE o \in S : \A p \in S : p.t <= o.t
(* the binary logs to apply, if any                                       *)
Logs(objs, d, point) == IF d.t = point THEN {} ELSE Stored(objs, d.ns, d.c, d.t, "binlog")
Wanted(o, point, schema) == {x.id : x \in {y \in Range(o.bt) : y.ts < point /\ (schema = "" \/ y.db = schema)}}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
=============================================================================
