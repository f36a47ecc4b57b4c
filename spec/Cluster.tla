------------------------------- MODULE Cluster -------------------------------
(***************************************************************************)
(* The MySQL cluster that MOCO maintains: mysqld instances with GTID-based *)
(* semi-synchronous replication, pods with role labels and marks, client   *)
(* sessions, and the recorded status of the MySQLCluster resource.         *)
(*                                                                         *)
(* A world is a record w.  Every transition is an operator that maps a     *)
(* world to the next one, so that the same definitions serve the           *)
(* exhaustive model (ClusterMC.tla) and the validation of traces recorded  *)
(* from the real code (ClusterTrace.tla).  Verdict(w, h, w2, ev) gives the *)
(* set of property violations of one step, h being the history gathered    *)
(* since the current maintenance round of MOCO began.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSrc == -1
Ext   == 9          \* index of the external replication source

Range(s) == {s[k] : k \in 1..Len(s)}

FreshInst == [up |-> TRUE, ro |-> TRUE, sro |-> TRUE, exec |-> {}, pend |-> {}, ret |-> {},
              purged |-> {}, src |-> NoSrc, io |-> FALSE, sql |-> FALSE, iosemi |-> FALSE,
              semim |-> FALSE, semis |-> FALSE, wait |-> 1, clone |-> ""]
FreshNet == [hidden |-> FALSE, cut |-> FALSE, slow |-> FALSE, behind |-> -1]
FreshPod == [there |-> TRUE, ready |-> TRUE, term |-> FALSE, demote |-> FALSE, prevent |-> FALSE, role |-> ""]
FreshStatus == [state |-> "", available |-> FALSE, healthy |-> FALSE, initialized |-> FALSE,
                elist |-> {}, synced |-> 0, cloned |-> FALSE]

Pods(w) == 0..(w.n - 1)
Up(w, i) == i \in DOMAIN w.inst /\ w.inst[i].up
\* reachable from MOCO
Reach(w, i) == Up(w, i) /\ ~w.net[i].hidden /\ (i \in DOMAIN w.pod => w.pod[i].there)

-----------------------------------------------------------------------------
(* Transitions of the database instances *)

NewTxn(w, i, t) == [w EXCEPT !.org = (t :> <<i, w.gen[i]>>) @@ w.org]

Ackable(w, i) ==
  LET I == w.inst[i] IN
  {t \in I.pend : ~I.semim \/ Cardinality({a \in w.acks : a[1] = i /\ a[2] = t}) >= I.wait}

\* commit transactions T of i; A: those acknowledged to the client
Commit(w, i, T, A) ==
  [w EXCEPT !.inst[i].exec = @ \cup T, !.inst[i].pend = @ \ T,
            !.acks = {a \in @ : ~(a[1] = i /\ a[2] \in T)},
            !.own = {o \in @ : ~(o[1] = i /\ o[2] \in T)},
            !.acked = @ \cup A]
Settle(w, i) == LET T == Ackable(w, i) IN Commit(w, i, T, T)

CanWrite(w, i, s) ==
  /\ Up(w, i) /\ ~w.inst[i].ro
  /\ \E x \in w.sess : x.s = s /\ x.i = i
  /\ ~ \E o \in w.own : o[3] = s
DoWrite(w, i, s, t) ==
  LET v == NewTxn(w, i, t) IN
  IF w.inst[i].semim /\ w.inst[i].wait > 0
  THEN [v EXCEPT !.inst[i].pend = @ \cup {t}, !.own = @ \cup {<<i, t, s>>}]
  ELSE [v EXCEPT !.inst[i].exec = @ \cup {t}, !.acked = @ \cup {t}]

DoInject(w, i, t) == [NewTxn(w, i, t) EXCEPT !.inst[i].exec = @ \cup {t}]

Connected(w, r) ==
  LET R == w.inst[r] IN
  /\ R.up /\ R.io /\ R.src # NoSrc /\ R.src # r /\ ~w.net[r].cut
  /\ Up(w, R.src) /\ ~w.net[R.src].cut
Have(w, i) == w.inst[i].exec \cup w.inst[i].ret
CanRetrieve(w, r, t) ==
  LET S == w.inst[w.inst[r].src] IN
  /\ Connected(w, r)
  /\ S.purged \subseteq Have(w, r)
  /\ t \in (S.exec \cup S.pend) \ Have(w, r)
DoRetrieve(w, r, t) ==
  LET s == w.inst[r].src
      v == [w EXCEPT !.inst[r].ret = @ \cup {t}]
  IN IF t \in w.inst[s].pend /\ w.inst[r].iosemi
     THEN Settle([v EXCEPT !.acks = @ \cup {<<s, t, r>>}], s) ELSE v
CanIOErr(w, r) == Connected(w, r) /\ ~(w.inst[w.inst[r].src].purged \subseteq Have(w, r))
DoIOErr(w, r) == [w EXCEPT !.inst[r].io = FALSE]

CanApply(w, r, t) == Up(w, r) /\ w.inst[r].sql /\ t \in w.inst[r].ret \ w.inst[r].exec
DoApply(w, r, t) == [w EXCEPT !.inst[r].exec = @ \cup {t}]

DropSessions(w, i) ==
  [w EXCEPT !.acks = {a \in @ : a[1] # i}, !.own = {o \in @ : o[1] # i}, !.sess = {x \in @ : x.i # i}]
DoCrash(w, i) == [DropSessions(w, i) EXCEPT !.inst[i].up = FALSE]
DoRestart(w, i) ==
  [w EXCEPT !.inst[i] = [@ EXCEPT !.up = TRUE, !.ro = TRUE, !.sro = TRUE, !.io = FALSE, !.sql = FALSE,
       !.iosemi = FALSE, !.semim = FALSE, !.semis = FALSE, !.wait = 1,
       !.exec = @ \cup w.inst[i].pend, !.pend = {}]]
DoWipe(w, i) ==
  [w EXCEPT !.gen[i] = @ + 1,
            !.inst[i] = [@ EXCEPT !.exec = {}, !.pend = {}, !.ret = {}, !.purged = {}, !.src = NoSrc,
                         !.io = FALSE, !.sql = FALSE, !.iosemi = FALSE, !.clone = ""]]
DoPurge(w, i) == [w EXCEPT !.inst[i].purged = w.inst[i].exec]
DoClone(w, i, s) ==
  [DropSessions(w, i) EXCEPT
     !.inst[i] = [FreshInst EXCEPT !.exec = w.inst[s].exec, !.purged = w.inst[s].exec, !.clone = "Completed"]]

DoOpen(w, i, s, wr) == [w EXCEPT !.sess = @ \cup {[s |-> s, i |-> i, wr |-> wr, role |-> w.pod[i].role]}]
DoKill(w, i, s) ==
  LET T == {o[2] : o \in {o \in w.own : o[1] = i /\ o[3] = s}}
      v == Commit(w, i, T, {})
  IN [v EXCEPT !.sess = {x \in @ : x.s # s}]

(* Operations of MOCO on an instance *)
DoStopReplica(w, i) == [w EXCEPT !.inst[i] = [@ EXCEPT !.io = FALSE, !.sql = FALSE, !.iosemi = FALSE]]
DoStopIO(w, i) == [w EXCEPT !.inst[i] = [@ EXCEPT !.io = FALSE, !.iosemi = FALSE]]
DoStopSQL(w, i) == [w EXCEPT !.inst[i].sql = FALSE]
DoStartReplica(w, i) == [w EXCEPT !.inst[i] = [@ EXCEPT !.io = TRUE, !.sql = TRUE, !.iosemi = w.inst[i].semis]]
\* Acknowledged transactions that are dropped with the relay log of i while the recorded primary
\* is out of reach: i is impaired, and the durability guarantee does not cover them any more.
Dropped(w, i) ==
  {t \in w.acked \cap (w.inst[i].ret \ w.inst[i].exec) :
     ~Reach(w, w.prim) \/ w.net[w.prim].cut \/ (i \in DOMAIN w.net /\ w.net[i].cut)}
Safe(w) == w.acked \ w.frag
DoChangeSource(w, i, s) == [w EXCEPT !.frag = @ \cup Dropped(w, i), !.inst[i] = [@ EXCEPT !.ret = {}, !.src = s]]
DoResetReplica(w, i, all) ==
  [w EXCEPT !.frag = @ \cup Dropped(w, i), !.inst[i] = [@ EXCEPT !.ret = {}, !.src = IF all THEN NoSrc ELSE @]]
CanSetSRO(w, i, on) == ~on \/ w.inst[i].pend = {} \/ ~w.inst[i].semim
DoSetSRO(w, i, on) ==
  IF on THEN [w EXCEPT !.inst[i] = [@ EXCEPT !.ro = TRUE, !.sro = TRUE]] ELSE [w EXCEPT !.inst[i].sro = FALSE]
DoSetRO(w, i, on) ==
  [w EXCEPT !.inst[i] = [@ EXCEPT !.ro = on, !.sro = IF on THEN @ ELSE FALSE]]
DoSetSemiM(w, i, on) == LET v == [w EXCEPT !.inst[i].semim = on] IN IF on THEN v ELSE Settle(v, i)
DoSetSemiS(w, i, on) == [w EXCEPT !.inst[i].semis = on]
DoSetWait(w, i, n) == Settle([w EXCEPT !.inst[i].wait = n], i)

-----------------------------------------------------------------------------
(* Classification of a snapshot, as documented in docs/clustering.md *)

Replicas(w) == Pods(w) \ {w.prim}
\* transactions of i that the primary never had and that do not originate from the primary itself
ErrantTxns(w, i) ==
  {t \in w.inst[i].exec \ w.inst[w.prim].exec : w.org[t] # <<w.prim, w.gen[w.prim]>>}
TrueErrant(w) == {i \in Replicas(w) : ErrantTxns(w, i) # {}}
\* a demoted primary with sessions waiting for semi-sync acks cannot be used
Hung(w, i) == i # w.prim /\ w.inst[i].semim /\ w.inst[i].pend # {}
Usable(w, i) == Reach(w, i) /\ ~Hung(w, i)
PrimaryHasData(w) == Reach(w, w.prim) /\ w.inst[w.prim].exec # {}
\* the errant replicas of a snapshot
ErrantOf(w) ==
  IF PrimaryHasData(w) THEN {i \in TrueErrant(w) : Reach(w, i)} ELSE w.status.elist
PrimaryOK(w) == /\ Reach(w, w.prim)
                /\ IF w.ext THEN w.inst[w.prim].sro ELSE ~w.inst[w.prim].ro
Attached(w) == {i \in Replicas(w) : Connected(w, i) /\ w.inst[i].src = w.prim}
ReplicaOK(w, i) ==
  /\ Usable(w, i) /\ i \notin ErrantOf(w) /\ w.inst[i].sro /\ w.inst[i].src = w.prim
LostData(w) ==
  w.inst[w.prim].exec = {} /\ \E i \in Replicas(w) : Usable(w, i) /\ w.inst[i].exec # {}
PrimaryGone(w) == ~Reach(w, w.prim) \/ LostData(w)
Survivors(w) ==
  {i \in Replicas(w) : Usable(w, i) /\ w.inst[i].src # NoSrc /\ i \notin ErrantOf(w) /\ w.inst[i].exec # {}}
OKReplicas(w) == {i \in Replicas(w) : ReplicaOK(w, i) /\ w.pod[i].ready}

Cloning(w) ==
  /\ w.ext /\ ~w.status.cloned
  /\ \/ ~Reach(w, w.prim)
     \/ w.inst[w.prim].clone \notin {"", "Completed"}
     \/ w.inst[w.prim].clone = "" /\ w.inst[w.prim].exec = {}
Healthy(w) ==
  /\ \A i \in Pods(w) : w.pod[i].ready
  /\ \A i \in Replicas(w) : ReplicaOK(w, i)
  /\ PrimaryOK(w) /\ Attached(w) = Replicas(w)
Degraded(w) ==
  /\ w.pod[w.prim].ready /\ PrimaryOK(w) /\ ~LostData(w)
  /\ Cardinality(Attached(w)) >= w.n \div 2
  /\ Cardinality(OKReplicas(w)) >= w.n \div 2
  /\ OKReplicas(w) # Replicas(w)
Classify(w) ==
  CASE w.offline -> "Offline"
    [] ~w.offline /\ Cloning(w) -> "Cloning"
    [] ~w.offline /\ ~Cloning(w) /\ w.restoring -> "Restoring"
    [] OTHER ->
       IF Healthy(w) THEN "Healthy"
       ELSE IF Degraded(w) THEN "Degraded"
       ELSE IF PrimaryGone(w)
            THEN IF Cardinality(Survivors(w)) > w.n \div 2 THEN "Failed" ELSE "Lost"
       ELSE "Incomplete"
ReadyPods(w) == {i \in Pods(w) : w.pod[i].there /\ w.pod[i].ready}
\* the status MOCO has to write for a snapshot
StatusOf(w) ==
  LET s == Classify(w) IN
  [state |-> s, available |-> s \in {"Healthy", "Degraded"}, healthy |-> s = "Healthy",
   initialized |-> s \notin {"Cloning", "Restoring"}, elist |-> ErrantOf(w),
   synced |-> Cardinality(ReadyPods(w)),
   cloned |-> w.status.cloned \/ (w.ext /\ s \notin {"Cloning", "Offline"})]

Marked(w, i) == w.pod[i].term \/ w.pod[i].demote
Lags(w, i) == /\ w.maxdelay > 0 /\ i # w.prim /\ Reach(w, i) /\ w.inst[i].src # NoSrc
              /\ w.inst[i].sql /\ w.net[i].behind > w.maxdelay

-----------------------------------------------------------------------------
(* History of the current maintenance round.  MOCO acts on observations     *)
(* made at different times of the round, so a decision is justified if its  *)
(* reason held at some time of the round ("Some"), and demanded only if it  *)
(* held all the time ("All").                                               *)

\* pods of a Healthy cluster that MOCO still has to label or to configure
Todo(w) == {i \in Pods(w) : \/ w.pod[i].role # (IF i = w.prim THEN "primary" ELSE "replica")
                            \/ i # w.prim /\ w.inst[i].semis # ~w.ext}
Snap(w) ==
  [down   |-> {i \in DOMAIN w.inst : ~Reach(w, i)},
   hung   |-> {i \in Pods(w) : Hung(w, i)},
   upS    |-> {i \in Pods(w) : Reach(w, i)},
   empty  |-> {i \in DOMAIN w.inst : w.inst[i].exec = {}},
   dataS  |-> {i \in Pods(w) : w.inst[i].exec # {}},
   srcS   |-> {i \in Pods(w) : w.inst[i].src # NoSrc},
   errS   |-> TrueErrant(w),
   errA   |-> TrueErrant(w),
   markS  |-> {i \in Pods(w) : w.pod[i].there /\ Marked(w, i)},
   lagS   |-> {i \in Pods(w) : Lags(w, i)},
   lagA   |-> {i \in Pods(w) : Lags(w, i)},
   todoS  |-> Todo(w),
   okS    |-> {i \in Replicas(w) : ReplicaOK(w, i)},
   okA    |-> {i \in OKReplicas(w) : i \notin TrueErrant(w)}]
NewRound(w) ==
  Snap(w) @@ [had |-> [i \in DOMAIN w.inst |-> w.inst[i].exec],
              purged |-> [i \in DOMAIN w.inst |-> w.inst[i].purged],
              pods |-> \A i \in Pods(w) : w.pod[i].there,
              opfail |-> FALSE, nS |-> {w.n}, must |-> "", prim |-> w.prim, wrote |-> FALSE, extC |-> w.ext]
\* keep the round's history up to date after a step to w
Extend(h, w) ==
  LET s == Snap(w) IN
  [h EXCEPT !.had = [i \in DOMAIN w.inst |-> @[i] \cup w.inst[i].exec],
            !.nS = @ \cup {w.n}, !.down = @ \cup s.down, !.hung = @ \cup s.hung, !.upS = @ \cup s.upS, !.empty = @ \cup s.empty,
            !.dataS = @ \cup s.dataS, !.srcS = @ \cup s.srcS, !.errS = @ \cup s.errS, !.errA = @ \cap s.errA,
            !.markS = @ \cup s.markS, !.lagS = @ \cup s.lagS, !.lagA = @ \cap s.lagA,
            !.todoS = @ \cup s.todoS, !.okS = @ \cup s.okS, !.okA = @ \cap s.okA]

-----------------------------------------------------------------------------
(* Property verdicts.  ev.e names the step; w and w2 are the worlds before  *)
(* and after it.  Each operator yields a set of <<property, explanation>>.  *)

If(c, p, m) == IF c THEN {<<p, m>>} ELSE {}

HandsOff == {"Lost", "Restoring", "Offline"}

\* MOCO changes something: is it allowed to act at all in this round?
VAct(w, h, what) ==
     If(~h.pods /\ ~w.offline, "C12", "acted on a cluster with missing pods: " \o what)
  \cup If(w.status.state \in HandsOff, "C12", "acted on a cluster that is " \o w.status.state \o ": " \o what)
  \cup If(h.must \in HandsOff, "C12", "acted on a cluster that is in fact " \o h.must \o ": " \o what)
  \cup If(h.must = "Lost", "C05", "acted on a cluster that has lost too many instances: " \o what)
  \cup If(w.status.state = "Healthy" /\ h.prim \notin h.markS /\ h.todoS = {}, "C12", "acted on a healthy cluster: " \o what)

\* transactions were acknowledged on i by this step
VAck(w, w2, i) ==
     If(w2.acked # w.acked /\ i # w2.prim, "C02", "a write was acknowledged by an instance that is not the recorded primary")
  \cup If(w2.acked # w.acked /\ w2.ext, "C02", "a write was acknowledged in a cluster with an external source")

VWritable(w, h, i) ==
     If(i # w.prim, "C02", "an instance other than the recorded primary was made writable")
  \cup If(w.ext, "C02", "an instance was made writable in a cluster with an external source")
  \cup If(w.ext, "C10", "an instance was made writable in a cluster with an external source")
  \cup If(w.n >= 3 /\ ~w.noC01 /\ ~(Safe(w) \subseteq w.inst[i].exec \cup w.inst[i].pend), "C01",
         "an instance lacking acknowledged transactions was made writable")
  \cup If(\E j \in Pods(w) \ {i} : w.pod[j].there /\ w.pod[j].role = "primary", "C04",
         "an instance was made writable while another pod has the primary label")
  \cup If(w.n >= 3 /\ ~(w.inst[i].semim /\ \E m \in h.nS : w.inst[i].wait = m \div 2), "C01",
         "an instance was made writable without requiring acknowledgements from half of the replicas")

VReset(w, i) ==
  If(i = w.prim /\ ~w.ext /\ ~(w.inst[i].ret \subseteq w.inst[i].exec), "C10",
     "received transactions were discarded from the primary before they were executed")

VStart(w, h, i) ==
  LET s == w.inst[i].src IN
     If(s \in DOMAIN w.inst /\ s # Ext /\ ~(h.purged[s] \subseteq h.had[i] \cup Have(w, i)), "C11",
        "replication was started although the source has purged transactions that the instance lacks")
  \cup If(i \in w.status.elist, "C03", "replication was started on an errant replica")
  \cup If(i = w.prim /\ ~w.ext /\ ~h.extC, "C07", "replication was started on the primary of a cluster without a source")
  \cup If(~w.inst[i].sro, "C02", "replication was started on an instance that is not super-read-only")
VChange(w, h, i, ev) ==
     If(ev.s \in DOMAIN w.inst /\ ev.s # Ext /\ ~(h.purged[ev.s] \subseteq h.had[i]), "C11",
        "the source was changed to one that has purged transactions which the instance lacks")
  \cup If(i \in w.status.elist, "C03", "an errant replica was given a replication source")
  \cup If(i # w.prim /\ ev.s # w.prim, "C07", "a replica was pointed to an instance that is not the primary")
  \cup If(i = w.prim /\ ev.s # Ext, "C07", "the primary was pointed to an instance of its own cluster")
  \cup If(~ev.auto, "C07", "replication was configured without GTID auto-positioning")
  \cup If(~ev.cred, "C07", "replication was configured with wrong credentials")

VClone(w, h, i, s) ==
     If(i \notin h.empty, "C10", "a clone was requested for an instance that holds data")
  \cup If(s = Ext /\ (~w.ext \/ i # w.prim), "C10", "a clone from the external source was requested for an instance that is not the primary")
  \cup If(s = Ext /\ w.status.cloned, "C10", "a clone from the external source was requested although the initial clone had completed")
  \cup If(s # Ext /\ (s # w.prim \/ i = w.prim), "C10", "a clone was requested from an instance that is not the primary")

\* sessions opened through a role other than v
OldRole(w, i, v) == {x \in w.sess : x.i = i /\ x.role # "" /\ x.role # v}
VLabel(w, h, i, v) ==
     If(v = "primary" /\ i # w.prim, "C04", "the primary label was put on an instance that is not the recorded primary")
  \cup If(v = "primary" /\ \E j \in Pods(w) \ {i} : w.pod[j].there /\ w.pod[j].role = "primary", "C04", "two pods carry the primary label")
  \cup If(v = "replica" /\ i = w.prim, "C04", "the replica label was put on the primary")
  \cup If(v \notin {"", "primary", "replica"}, "C04", "an unknown role label was set")
  \cup If(v # "" /\ i \in w.status.elist, "C04", "a role label was put on an errant replica")
  \cup If(v # "" /\ i \in w.status.elist, "C03", "a role label was put on an errant replica")
  \cup If(v # "" /\ OldRole(w, i, v) # {}, "C04", "a pod got a new role while connections made through its old role were alive")

VPrimary(w, h, new) ==
  LET old == w.prim
      mustBeSwitch == old \notin h.down /\ old \notin h.empty
      switchOK == /\ old \in h.markS /\ w.status.state \in {"Healthy", "Degraded"}
                  /\ new \in h.okS
      parts == {r \in h.srcS : r # old /\ r \notin h.down /\ r \notin h.hung /\ r \notin w.status.elist /\ w.inst[r].src # NoSrc}
      avail == {r \in Pods(w) \ {old} : r \in h.upS /\ r \in h.srcS /\ r \in h.dataS /\ r \notin w.status.elist}
      failOK == /\ old \in h.down \cup h.empty /\ w.status.state = "Failed"
                /\ Cardinality(avail) > w.n \div 2
                /\ new \notin h.empty
  IN IF new \notin Pods(w) THEN {<<"C05", "the recorded primary is not an instance">>} ELSE
     If(~switchOK /\ ~failOK, "C05", "the recorded primary was changed without a reason")
  \cup If(~switchOK /\ new \notin h.down /\ \E r \in parts : ~(Have(w, r) \subseteq w.inst[new].exec), "C05",
         "the new primary lacks transactions that a participating replica has received")
  \cup If(mustBeSwitch /\ ~w.inst[old].sro, "C02", "the recorded primary was changed while the old primary was writable")
  \cup If(mustBeSwitch /\ ~w.inst[old].sro, "C08", "the recorded primary was changed while the old primary was writable")
  \cup If(mustBeSwitch /\ ~w.ext /\ ~(w.inst[old].exec \subseteq w.inst[new].exec), "C08",
         "the new primary lacks transactions of the old one")
  \cup If(mustBeSwitch /\ \E j \in h.okA : j < new, "C08", "the switchover target is not the lowest-numbered healthy replica")
  \cup If(mustBeSwitch /\ h.lagA # {}, "C09", "a switchover was performed although a replica exceeds the delay limit")
  \cup If(new \in w.status.elist, "C03", "an errant replica was made the primary")
  \cup If(/\ ~mustBeSwitch /\ w.n >= 3 /\ Up(w, old) /\ ~w.inst[old].ro /\ w.inst[old].semim /\ w.inst[old].wait >= w.n \div 2
          /\ Cardinality({r \in Pods(w) \ {old} : w.inst[r].up /\ w.inst[r].io /\ w.inst[r].src = old}) >= w.inst[old].wait,
        "C02", "the recorded primary was changed although the old one can still collect enough acknowledgements")
  \cup If(w.n >= 3 /\ ~w.ext /\ ~w.noC01 /\ new \notin h.down /\ ~(Safe(w) \subseteq w.inst[new].exec), "C01",
         "the new primary lacks acknowledged transactions")

VDemote(w, i, v) ==
     If(~v /\ w.prim = i, "C08", "the demotion mark was removed although the primary has not changed")
  \cup If(v, "C08", "MOCO put a demotion mark on a pod")

VPrevent(w, h, i, v) ==
     If(v /\ i # w.prim, "C09", "an instance other than the primary was protected from deletion")
  \cup If(v /\ h.lagS = {}, "C09", "the primary was protected from deletion although no replica exceeds the limit")
  \cup If(~v /\ h.lagA # {}, "C09", "the protection from deletion was removed although a replica exceeds the limit")

VStatus(w, h, st) ==
  LET consulted == w.prim \notin h.down /\ w.prim \notin h.empty IN
     If(consulted /\ \E i \in h.errA : i \notin h.down /\ i \notin st.elist, "C03", "an errant replica was not recorded")
  \cup If(\E i \in st.elist : i \notin h.errS /\ (i \notin w.status.elist \/ consulted), "C03",
         "a replica without errant transactions was recorded as errant")
  \cup If((w.prim \in h.down /\ w.prim \notin h.upS) /\ ~(w.status.elist \subseteq st.elist), "C03",
         "the record of errant replicas was lost while the primary was unreachable")
  \cup If(~st.agree, "C06", "the conditions and their reason do not agree")
  \cup If(st.state = "Failed" /\ w.prim \notin h.down /\ w.prim \notin h.empty, "C06", "the cluster was declared Failed although the primary was available")
  \cup If(st.state \in {"Healthy", "Degraded"} /\ w.prim \notin h.upS, "C06", "the cluster was declared available although the primary was unreachable")
  \cup If(w.ext /\ ~st.cloned /\ st.state \notin {"Cloning", "Offline"}, "C10", "the completion of the initial clone was not recorded")
  \cup If(st.cloned /\ ~w.status.cloned /\ w.inst[w.prim].exec = {} /\ w.prim \in h.empty /\ w.prim \notin h.dataS /\ w.inst[w.prim].clone # "Completed",
        "C10", "the initial clone was recorded as completed although the primary holds no data")

\* a frozen world was observed by one complete round: the status must be exactly that of the snapshot
VFrozen(w, st) ==
  LET x == StatusOf(w) IN
  If(st.cloned # x.cloned, "C10", "the completion of the initial clone is not recorded correctly") \cup
  If([f \in DOMAIN x |-> st[f]] # x, "C06",
     "the status differs from the documented one: expected " \o ToString(x) \o " recorded " \o ToString([f \in DOMAIN x |-> st[f]]))

\* everything has been repaired and MOCO has had time to work: the cluster must be fully configured
VQuiesce(w) ==
  LET P == w.inst[w.prim] IN
     If(w.status.state # "Healthy", "C07", "the cluster did not become Healthy but is " \o w.status.state)
  \cup (IF w.status.state # "Healthy" THEN {} ELSE
     If(w.ext /\ ~(P.sro /\ P.src = Ext /\ P.io /\ P.sql), "C07", "the primary does not replicate from the external source")
  \cup If(~w.ext /\ P.ro, "C07", "the primary is not writable")
  \cup If(~w.ext /\ (P.io \/ P.sql), "C07", "the primary of a cluster without a source is a replica")
  \cup If(~w.ext /\ w.n > 1 /\ ~(P.semim /\ P.wait = w.n \div 2), "C07", "semi-sync of the primary is not set to half of the replicas")
  \cup If(\E r \in Replicas(w) : LET R == w.inst[r] IN ~(R.sro /\ R.ro /\ R.src = w.prim /\ R.io /\ R.sql /\ ~R.semim), "C07", "a replica is not configured")
  \cup If(\E r \in Replicas(w) : LET R == w.inst[r] IN R.semis # ~w.ext \/ R.iosemi # ~w.ext, "C07", "a replica has a wrong semi-sync setting")
  \cup If(\E r \in Replicas(w) : P.exec \ w.inst[r].exec # {}, "C07", "a replica does not follow the primary")
  \cup If(w.pod[w.prim].role # "primary" \/ \E r \in Replicas(w) : w.pod[r].role # "replica", "C07", "a pod lacks its role label")
  \cup If(w.n >= 3 /\ ~w.ext /\ ~w.noC01 /\ ~(Safe(w) \subseteq P.exec), "C01", "acknowledged transactions are lost")
  \cup If(\E i \in Pods(w) : w.pod[i].prevent, "C09", "a pod is still protected from deletion")
  \cup If(w.status.elist # {}, "C03", "a replica without errant transactions is still recorded as errant"))

\* errant replicas, and nothing else, disturb the cluster and MOCO has had time to work
VErrantSettled(w) ==
     If(w.status.elist # TrueErrant(w), "C03", "the recorded errant replicas are not the actual ones")
  \cup If(\E i \in TrueErrant(w) : w.inst[i].io, "C03", "an errant replica still replicates")
  \cup If(\E i \in TrueErrant(w) : w.pod[i].role # "", "C03", "an errant replica still carries a role label")

\* a switchover away from `from` was requested in an available cluster and MOCO has had time to work
VSwitched(w, from, clean) ==
     If(w.prim = from, "C08", "the requested switchover was not performed")
  \cup If(clean /\ w.prim # from /\ w.pod[from].demote, "C08", "the demotion mark is still there")
  \cup If(w.prim # from /\ Up(w, from) /\ ~w.inst[from].sro, "C08", "the old primary is not super-read-only")
  \cup If(w.prim # from /\ OldRole(w, from, w.pod[from].role) # {}, "C08", "connections made through the old role are alive on the old primary")
  \cup If(w.prim # from /\ w.inst[w.prim].ro /\ ~w.ext, "C08", "the new primary is not writable")

\* the primary has been down for long while the replicas were running, and no request failed lately
VFailedOver(w, from) ==
     If(w.prim = from, "C05", "the failed primary was not replaced")
  \cup If(w.prim # from /\ w.inst[w.prim].ro /\ ~w.ext, "C05", "the new primary is not writable")

\* delays did not change for long and the cluster is otherwise fine
VDelaySettled(w) ==
  LET late == {i \in Pods(w) : Lags(w, i)} IN
     If(late # {} /\ ~w.pod[w.prim].prevent, "C09", "the primary is not protected although a replica exceeds the limit")
  \cup If(late = {} /\ \E i \in Pods(w) : w.pod[i].prevent, "C09", "a pod is protected although no replica exceeds the limit")

\* invariants of every state
VState(w) ==
     If(w.n >= 3 /\ ~w.ext /\ ~w.noC01 /\ Up(w, w.prim) /\ ~w.inst[w.prim].ro
          /\ ~(Safe(w) \subseteq w.inst[w.prim].exec \cup w.inst[w.prim].pend),
        "C01", "the recorded primary accepts writes but lacks acknowledged transactions")
  \cup If(Cardinality({i \in Pods(w) : w.pod[i].there /\ w.pod[i].role = "primary"}) > 1, "C04", "two pods carry the primary label")
  \cup If(\E i \in w.status.elist : i \in Pods(w) /\ i = w.prim, "C03", "the recorded primary is recorded as errant")
==============================================================================
