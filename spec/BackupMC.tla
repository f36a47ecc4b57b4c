----------------------------- MODULE BackupMC -----------------------------
(* Histories of backups: transactions, rotation and purging of binary     *)
(* logs, failovers, instances that fall behind, become unready, or are    *)
(* re-initialised by a clone, and runs of moco-backup that may be ended   *)
(* or fail at every step.  Every recorded backup is judged by the same    *)
(* operators as the real moco-backup (RecordFaults), and what can be      *)
(* restored from the storage is compared with the transactions.           *)
EXTENDS Backup

CONSTANTS N,            \* number of instances
          MaxTxn, MaxRuns, MaxEvents,  \* bounds; an event is a rotation, purge, clone, failover, or change of readiness
          CheckPurged,  \* the run compares gtid_purged with the last dump
          UseUUIDs,     \* the run looks for re-initialised instances
          RecordLast,   \* the record is written after everything is stored
          OldestFirst   \* with another source, its oldest binary log is the first

VARIABLES insts, prim, ts, now, objs, rec, run, runs, events, recs, nextUUID
vars == <<insts, prim, ts, now, objs, rec, run, runs, events, recs, nextUUID>>
I == 0..(N - 1)
NoRec == [t |-> 0]
Idle == [pc |-> "idle"]

AppendLast(files, x) == [files EXCEPT ![Len(files)] = [@ EXCEPT !.t = Append(@, x)]]
Init ==
  /\ insts = [i \in I |-> [uuid |-> i + 1, ready |-> TRUE, exec |-> <<>>, files |-> <<[n |-> 1, t |-> <<>>]>>]]
  /\ prim = 0 /\ ts = <<>> /\ now = 1 /\ objs = {} /\ rec = NoRec /\ run = Idle /\ runs = 0 /\ events = 0
  /\ recs = <<>> /\ nextUUID = N + 1

(* The cluster.                                                            *)
Commit ==
  /\ Len(ts) < MaxTxn
  /\ ts' = Append(ts, now) /\ now' = now + 1
  /\ insts' = [insts EXCEPT ![prim] = [@ EXCEPT !.exec = Append(@, Len(ts) + 1), !.files = AppendLast(@, Len(ts) + 1)]]
  /\ UNCHANGED <<prim, objs, rec, run, runs, events, recs, nextUUID>>
Replicate(i) ==
  /\ Len(insts[i].exec) < Len(ts)
  /\ LET x == Len(insts[i].exec) + 1 IN
     insts' = [insts EXCEPT ![i] = [@ EXCEPT !.exec = Append(@, x), !.files = AppendLast(@, x)]]
  /\ UNCHANGED <<prim, ts, now, objs, rec, run, runs, events, recs, nextUUID>>
Env == events < MaxEvents /\ events' = events + 1
Rotate(i) ==
  /\ Env /\ insts[i].files[Len(insts[i].files)].t # <<>>
  /\ insts' = [insts EXCEPT ![i] = [@ EXCEPT !.files = Append(@, [n |-> @[Len(@)].n + 1, t |-> <<>>])]]
  /\ UNCHANGED <<prim, ts, now, objs, rec, run, runs, recs, nextUUID>>
Purge(i) ==
  /\ Env /\ Len(insts[i].files) > 1
  /\ insts' = [insts EXCEPT ![i] = [@ EXCEPT !.files = Tail(@)]]
  /\ UNCHANGED <<prim, ts, now, objs, rec, run, runs, recs, nextUUID>>
(* The data of a replica is lost and cloned from the primary.              *)
Reinit(i) ==
  /\ Env /\ run = Idle /\ i # prim
  /\ insts' = [insts EXCEPT ![i] = [uuid |-> nextUUID, ready |-> TRUE, exec |-> insts[prim].exec, files |-> <<[n |-> 1, t |-> <<>>]>>]]
  /\ nextUUID' = nextUUID + 1
  /\ UNCHANGED <<prim, ts, now, objs, rec, run, runs, recs>>
Failover(i) ==
  /\ Env /\ i # prim /\ Len(insts[i].exec) = Len(ts) /\ prim' = i
  /\ UNCHANGED <<insts, ts, now, objs, rec, run, runs, recs, nextUUID>>
Ready(i) ==
  /\ Env /\ run = Idle /\ insts' = [insts EXCEPT ![i] = [@ EXCEPT !.ready = ~@]]
  /\ UNCHANGED <<prim, ts, now, objs, rec, run, runs, recs, nextUUID>>

(* A run of moco-backup.                                                   *)
ReadyNow == {i \in I : insts[i].ready}
Begin ==
  /\ run = Idle /\ runs < MaxRuns /\ runs' = runs + 1 /\ ReadyNow # {}
  /\ now' = now + 1
  /\ \E lost \in SUBSET ReadyNow :   \* instances that did not answer
       LET seen == [i \in ReadyNow \ lost |-> insts[i].uuid]
           un == IF rec.t = 0 THEN {} ELSE IF UseUUIDs THEN Unchanged(rec, seen) ELSE {u.i : u \in Range(rec.uuids)} \cap DOMAIN seen
       IN \E s \in ReadyNow :
            /\ IF UseUUIDs THEN ChoiceOK(rec, seen, prim, ReadyNow, s) ELSE un # {} => s \in un
            /\ run' = [pc |-> "chosen", src |-> s, bin |-> un # {}, start |-> now, t |-> now, seen |-> [i \in DOMAIN seen |-> {seen[i]}],
                       file |-> insts[s].files[Len(insts[s].files)].n, uuid |-> insts[s].uuid, dump |-> [n |-> 0],
                       warn |-> IF rec.t # 0 /\ un = {} THEN 1 ELSE 0]
  /\ UNCHANGED <<insts, prim, ts, objs, rec, events, recs, nextUUID>>
At(i) == [ns |-> "ns", c |-> "c", i |-> i]
Dump ==
  /\ run.pc = "chosen"
  /\ run' = [run EXCEPT !.pc = "dumped", !.dump = [n |-> runs, at |-> At(run.src), uuid |-> insts[run.src].uuid, txns |-> insts[run.src].exec]]
  /\ UNCHANGED <<insts, prim, ts, now, objs, rec, runs, events, recs, nextUUID>>
Object(t, kind, txns, n) == [ns |-> "ns", c |-> "c", t |-> t, kind |-> kind, complete |-> TRUE, txns |-> txns,
                             bt |-> [k \in 1..Len(txns) |-> [id |-> txns[k], ts |-> ts[txns[k]], db |-> "d"]], n |-> n, size |-> 1, key |-> <<t, kind>>]
Upload ==
  /\ run.pc = "dumped"
  /\ objs' = Overwrite(objs, Object(run.t, "dump", run.dump.txns, runs))
  /\ run' = [run EXCEPT !.pc = "stored"]
  /\ UNCHANGED <<insts, prim, ts, now, rec, runs, events, recs, nextUUID>>
(* mysqlbinlog takes all files from the first one and leaves out the       *)
(* transactions of the last dump; it fails if the first one does not exist *)
RECURSIVE Cat(_)
Cat(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs).t \o Cat(Tail(fs))
Purged(x) == Range(x.exec) \ InFiles(x, 0)
Binlog ==
  /\ run.pc = "stored" /\ run.bin
  /\ LET x == insts[run.src]
         from == IF run.src = rec.src \/ ~OldestFirst THEN rec.file ELSE x.files[1].n
         has == \E f \in Range(x.files) : f.n = from
         all == Cat(SelectSeq(x.files, LAMBDA f : f.n >= from))
         new == SelectSeq(all, LAMBDA y : y \notin Range(rec.gtid))
     IN \/ /\ has /\ (CheckPurged => Purged(x) \subseteq Range(rec.gtid))
           /\ objs' = Overwrite(objs, Object(rec.t, "binlog", new, 0))
           /\ run' = [run EXCEPT !.pc = "logged"]
        \/ \* it fails, or one of the pipes does
           /\ objs' = objs /\ run' = [run EXCEPT !.pc = "logged", !.warn = 1]
  /\ UNCHANGED <<insts, prim, ts, now, rec, runs, events, recs, nextUUID>>
Uuids(seen) == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE IN <<[i |-> i, uuid |-> CHOOSE u \in seen[i] : TRUE]>> \o L(S \ {i}) IN L(DOMAIN seen)
NewRec == [t |-> run.t, src |-> run.src, uuid |-> run.uuid, uuids |-> Uuids(run.seen), file |-> run.file,
           gtid |-> run.dump.txns, warn |-> run.warn, dsize |-> 1, bsize |-> 0]
Record ==
  /\ IF RecordLast THEN run.pc = "logged" \/ (run.pc = "stored" /\ ~run.bin) ELSE run.pc \in {"dumped", "stored"}
  /\ rec' = NewRec
  /\ recs' = Append(recs, [old |-> rec, new |-> NewRec, bad |-> RecordFaults("ns", "c", objs, rec, run, insts[run.src], NewRec)])
  /\ run' = Idle
  /\ UNCHANGED <<insts, prim, ts, now, objs, runs, events, nextUUID>>
Crash ==
  /\ run # Idle /\ run' = Idle
  /\ UNCHANGED <<insts, prim, ts, now, objs, rec, runs, events, recs, nextUUID>>

Next == \/ Commit \/ \E i \in I : Replicate(i) \/ Rotate(i) \/ Purge(i) \/ Reinit(i) \/ Failover(i) \/ Ready(i)
        \/ Begin \/ (run # Idle /\ (Dump \/ Upload \/ Binlog \/ Record)) \/ Crash
Spec == Init /\ [][Next]_vars

RecordsOK == \A k \in 1..Len(recs) : recs[k].bad = {}
(* A restoration to a point up to the next recorded backup, if that has no *)
(* warning, has every transaction of that backup before the point, and     *)
(* nothing after the point that the dump does not have.  (A dump of a run  *)
(* that ended early has no binary logs; see DESIGN.md.)                    *)
Restored(p) == LET d == Latest(Dumps(objs, "ns", "c", p)) IN Range(d.txns) \cup UNION {Wanted(o, p, "") : o \in Logs(objs, d, p)}
Recorded(t) == \E k \in 1..Len(recs) : recs[k].new.t = t
RestoreOK ==
  \A k \in 1..Len(recs) :
    LET a == recs[k].old b == recs[k].new IN
    (a.t # 0 /\ b.warn = 0) =>
      \A p \in a.t..b.t :
        Recorded(Latest(Dumps(objs, "ns", "c", p)).t) =>
          /\ {x \in Range(b.gtid) : ts[x] < p /\ ts[x] >= a.t} \subseteq Restored(p)
          /\ \A x \in Restored(p) : ts[x] < p \/ x \in Range(Latest(Dumps(objs, "ns", "c", p)).txns)
LatestOK == rec.t # 0 => Range(rec.gtid) \subseteq Range(Latest(Dumps(objs, "ns", "c", rec.t)).txns)
============================================================================
