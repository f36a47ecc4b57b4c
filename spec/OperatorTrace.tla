---------------------------- MODULE OperatorTrace ----------------------------
(* Validates a trace of the real controllers of MOCO.                       *)
EXTENDS Operator, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, objs, mgr, runs, calm, env, bad
vars == <<l, objs, mgr, runs, calm, env, bad>>

\* The reconciliations that are running, the newest first: one may run while another waits for an answer.
\* cands: the versions of the MySQLCluster that it may have read; dirty: keys changed by others meanwhile
NoRun == [c |-> "", cands |-> {}, dirty |-> {}, fault |-> FALSE, cut |-> {}, roll |-> FALSE, part |-> -1]

cur == IF runs = <<>> THEN NoRun ELSE Head(runs)
Push(r) == <<r>> \o runs
Pop == Tail(runs)
\* something was changed behind the back of a reconciliation
Behind(rs, k, o) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.dirty = @ \cup {k}, !.cands = IF k = rs[i].c /\ ~o.gone THEN @ \cup {o} ELSE @]]

Put(k, o) == IF o.gone THEN [x \in DOMAIN objs \ {k} |-> objs[x]] ELSE [x \in DOMAIN objs \cup {k} |-> IF x = k THEN o ELSE objs[x]]
Old(k) == IF Has(objs, k) THEN objs[k] ELSE NoObj
Mgr(c) == IF c \in DOMAIN mgr THEN mgr[c] ELSE "none"

R(o, m, rs, ca, v) == [objs |-> o, mgr |-> m, runs |-> rs, calm |-> ca, v |-> v]
Same(v) == R(objs, mgr, runs, calm, v)

Ext(ev) == R(Put(ev.key, ev.o), mgr, Behind(runs, ev.key, ev.o), calm, Rearm(Old(ev.key), ev.o))

\* the status must not say that a generation is reconciled before the StatefulSet is
Recorded(k, old, n) ==
  If(/\ Live(old) /\ Live(n) /\ IsCluster(n) /\ n.recGen # old.recGen
     /\ ~\E c \in cur.cands : c.gen = n.recGen /\ Has(objs, KSts(c)) /\ (objs[KSts(c)].deleting \/ (StsSpec(c, objs[KSts(c)]) /\ StsVols(c, objs[KSts(c)])))
     /\ KSts(n) \notin cur.dirty,
     "C17", "a generation was recorded as reconciled though the StatefulSet is not")

Changed(old, n) == Live(old) # Live(n) \/ (Live(old) /\ Live(n) /\ n.fp # old.fp)

\* What the instances read is named after its content: a change in place would never reach them.
\* The most recent ones are kept, for the instances that were not updated yet.
IsConf(n) == n.kind = "ConfigMap" /\ n.pre # ""
ConfText(n) == <<n.maxconn, n.pool, n.slow, n.lower>>
Newer(k) == {j \in DOMAIN objs \ {k} : objs[j].kind = "ConfigMap" /\ objs[j].owner = objs[k].owner /\ objs[j].pre = objs[k].pre /\ objs[j].at >= objs[k].at}
Configs(ev, old, n) ==
  IF Live(n) THEN If(IsConf(n) /\ ev.key \in DOMAIN env.cms /\ env.cms[ev.key] # ConfText(n), "C17", "a configuration was changed in place: " \o ev.key)
  ELSE If(Live(old) /\ IsConf(old) /\ (\E c \in cur.cands : old.pre = CMPrefix(c)) /\ cur.dirty = {} /\ Cardinality(Newer(ev.key)) < env.limit - 1, "C17", "a recent configuration was removed: " \o ev.key)

Wrote(ev) ==
  LET old == Old(ev.key) n == ev.o IN
  R(Put(ev.key, n), mgr, IF runs = <<>> THEN runs ELSE <<cur>> \o Behind(Tail(runs), ev.key, n), calm,
    Rearm(old, n)
    \cup (IF ev.act = "part" THEN PartWrite(objs, ev.key, ev.op, old, n, ev.t, cur.dirty # {})
          ELSE IF ev.act = "" THEN {<<"C18", "something was changed outside of a reconciliation: " \o ev.key>>}
          ELSE WriteAny(env.sys, objs, cur.cands, Mgr(ev.act), ev.key, ev.op, old, n) \cup Recorded(ev.key, old, n) \cup Configs(ev, old, n))
    \cup If(calm = "quiet" /\ n # old /\ (ev.op # "status" \/ Changed(old, n)), "C17", "something is still changed after everything has settled: " \o ev.key))

Manager(ev) ==
  R(objs, IF ev.op \in {"update", "pause", "stop"} THEN (ev.c :> ev.op) @@ mgr ELSE mgr, runs, calm,
    CASE ev.op = "update" -> If(ev.c # ev.act, "C18", "the maintenance of another cluster was started")
                             \cup If(ev.c = ev.act /\ ~\E c \in cur.cands : ~c.cluStop, "C14", "clustering is stopped, but maintenance was started")
                             \cup If(ev.c = ev.act /\ ~\E c \in cur.cands : ~c.deleting, "C18", "the maintenance of a cluster being deleted was started")
      [] ev.op = "pause" -> If(~\E c \in cur.cands : c.cluStop, "C14", "maintenance was paused though clustering is not stopped")
      [] ev.op = "stop" -> If(cur.cands # {} /\ ~\E c \in cur.cands : c.deleting, "C18", "the maintenance of an existing cluster was stopped")
      [] OTHER -> {})

\* whatever is wrong with a managed object was not reconciled either
Also(v) == v \cup {<<"C17", x[2]>> : x \in v}
Succeeded(c, ev) ==
  LET x == objs[c] IN
  (IF x.recStop THEN If(x.cond.ReconciliationActive # "False", "C14", "the status does not tell that reconciliation is stopped")
                     \cup If(ev.rs # 1, "C14", "the metrics do not tell that reconciliation is stopped")
   ELSE Also(Complaints(env.sys, objs, x)) \cup If(ev.rs # 0, "C14", "the metrics tell that reconciliation is stopped"))
  \cup (IF x.cluStop THEN If(Mgr(c) # "pause", "C14", "clustering is stopped, but maintenance goes on")
                          \cup If(x.cond.ClusteringActive # "False", "C14", "the status does not tell that clustering is stopped")
                          \cup If({x.cond.Available, x.cond.Healthy} \cap {"True", "False"} # {}, "C14", "the status tells the health of a cluster that is not maintained")
                          \cup If(ev.cs # 1, "C14", "the metrics do not tell that clustering is stopped")
        ELSE If(Mgr(c) # "update", "C14", "clustering is not stopped, but the cluster is not maintained")
             \cup If(ev.cs # 0, "C14", "the metrics tell that clustering is stopped"))

\* C27: the conditions
StsReady(c) == Has(objs, KSts(c)) /\ LET s == objs[KSts(c)] IN s.avail = s.replicas /\ s.cur = s.rev /\ s.gen = s.obs
Conditions(ev, x) ==
  IF x.deleting \/ x.recStop \/ cur.dirty # {} \/ ev.c \in cur.cut \/ ev.panic THEN {}
  ELSE If(ev.err /\ x.cond.ReconcileSuccess = "True", "C27", "a failed reconciliation is reported as successful")
       \cup If(~ev.err /\ x.cond.ReconcileSuccess # "True", "C27", "a successful reconciliation is not reported as such")
       \cup If(x.cond.StatefulSetReady = "True" /\ ~StsReady(x), "C27", "the StatefulSet is reported as ready though it is not")
       \cup If(~cur.fault /\ x.cond.StatefulSetReady # "True" /\ StsReady(x), "C27", "the StatefulSet is ready, but is not reported as such")
       \cup If(x.cond.ReconciliationActive # "True", "C27", "the status tells that reconciliation is stopped")

End(ev) ==
  R(objs, mgr, Pop, calm,
    (IF Has(objs, ev.c) THEN Conditions(ev, objs[ev.c]) ELSE {}) \cup
    If(ev.panic, "C17", "the reconciliation panicked: " \o ev.msg) \cup
    IF ev.err \/ ev.again \/ cur.dirty # {} THEN {}
    ELSE IF ~Has(objs, ev.c)
    THEN If(Mgr(ev.c) # "stop", "C18", "the maintenance of a deleted cluster was not stopped")
         \cup If(cur.cands # {} /\ (ev.cs # -1 \/ ev.rs # -1), "C14", "metrics of a deleted cluster are left")
    ELSE IF objs[ev.c].deleting
    THEN If(objs[ev.c].fin, "C18", "the cluster was not released")
    ELSE Succeeded(ev.c, ev))

PEnd(ev) ==
  R(objs, mgr, Pop, calm,
    If(ev.panic, "C15", "the partition controller panicked: " \o ev.msg) \cup
    IF cur.fault \/ cur.dirty # {} \/ ~Has(objs, ev.c) THEN {}
    ELSE LET s == objs[ev.c] IN
         If(cur.roll /\ s.part = cur.part, "C15", "the rollout does not go on though it may")
         \cup If(s.cluster # "" /\ ~s.force /\ s.part > 0 /\ ~ev.err /\ ~ev.again, "C15", "an unfinished rollout will not be looked at again"))

---------------------------------------------------------------------------
Keys(ws) == {w.k : w \in ws}
OwnedBy(c) == {k \in DOMAIN objs : objs[k].owner = c.uid}
\* MOCO keeps trying (and reports an error) when a claim is larger than wanted while it is to be enlarged
Stuck(c) == /\ Has(objs, KSts(c))
            /\ \E v \in DOMAIN c.vols \cap DOMAIN objs[KSts(c)].vols : \E i \in 0 .. 8 :
                 LET k == KPvc(c, v, i) IN Has(objs, k) /\ objs[k].size > c.vols[v] /\ objs[KSts(c)].vols[v] < c.vols[v]
Expands(k) == LET s == Key("StorageClass", "", objs[k].class) IN Has(objs, s) /\ objs[s].expand
Leftover(c, ws) ==
  {k \in OwnedBy(c) \ Keys(ws) :
     /\ objs[k].kind \notin {"ConfigMap", "Job", "PersistentVolumeClaim", "Pod"}
     /\ k \notin {KRRole(c), KRRB(c)}
     /\ k # KGrpc(c)}
History(c, pre) == {k \in OwnedBy(c) : objs[k].kind = "ConfigMap" /\ objs[k].pre = pre}

PropOf(c, k) == CASE k \in {KUser(c), KCnf(c), KGrpc(c), KCtrl(env.sys, c)} -> "C20"
                  [] k = KPdb(c) -> "C21"
                  [] k \in {KCron(c), KRole(c), KRB(c), KJob(c), KRRole(c), KRRB(c)} -> "C26"
                  [] OTHER -> "C17"

Settled(ev) ==
  LET ws == Rng(ev.want) IN
  IF ~Has(objs, ev.c)
  THEN LET c == [ns |-> ev.ns, name |-> ev.name] IN
       UNION {If(Has(objs, k), "C18", "left in the system namespace after deletion: " \o k) : k \in InSystem(env.sys, c)}
  ELSE LET c == objs[ev.c] IN
  If(c.deleting, "C18", "the deletion does not finish")
  \cup (IF c.deleting \/ Stuck(c) THEN {}
        ELSE (IF c.cluStop THEN If(Mgr(ev.c) # "pause", "C14", "clustering is stopped, but maintenance goes on")
              ELSE If(Mgr(ev.c) # "update", "C14", "clustering is not stopped, but the cluster is not maintained"))
        \cup (IF c.recStop THEN {}
              ELSE Also(Complaints(env.sys, objs, c)
              \cup UNION {(IF Has(objs, w.k) THEN If(w.k # KPdb(c) /\ objs[w.k].fp # w.fp, PropOf(c, w.k), "what was made depends on the past: " \o w.k)
                           ELSE {<<PropOf(c, w.k), "never made: " \o w.k>>}) : w \in ws}
              \cup UNION {{<<PropOf(c, k), "left behind: " \o k>>} : k \in Leftover(c, ws)})
              \cup UNION {If(Cardinality(History(c, p)) > env.limit + 1, "C17", "old ConfigMaps are not removed") : p \in {CMPrefix(c)}}
              \cup UNION {LET k == x[1] v == x[2] IN
                     IF ~Has(objs, k) \/ objs[k].lbl # Labels(c) THEN {}
                     ELSE If(Expands(k) /\ objs[k].size < c.vols[v] /\ ~c.offline /\ ~c.cluStop, "C19", "a volume claim was not enlarged: " \o k)
                          \cup If((c.vl[v] # "" /\ objs[k].l # c.vl[v]) \/ (c.va[v] # "" /\ objs[k].a # c.va[v]), "C19", "labels or annotations were not copied to a volume claim: " \o k)
                   : x \in Claims(c, c.vols, c.replicas)}
              \cup (IF Has(objs, KSts(c)) /\ ~c.cluStop /\ ~c.offline
                    THEN If(objs[KSts(c)].part \notin {0, -1}, "C15", "the rollout does not finish, the partition is " \o ToString(objs[KSts(c)].part)) ELSE {})))

Step(ev) ==
  CASE ev.e = "ext" -> Ext(ev)
    [] ev.e = "write" -> Wrote(ev)
    [] ev.e = "begin" -> R(objs, mgr, Push([NoRun EXCEPT !.c = ev.c, !.cands = IF Has(objs, ev.c) THEN {objs[ev.c]} ELSE {}]), calm, {})
    [] ev.e = "pbegin" ->
         R(objs, mgr, Push([NoRun EXCEPT !.c = ev.c, !.roll = Has(objs, ev.c) /\ Rollable(objs, objs[ev.c], ev.t), !.part = IF Has(objs, ev.c) THEN objs[ev.c].part ELSE -1]), calm, {})
    [] ev.e = "fault" -> R(objs, mgr, <<[cur EXCEPT !.fault = TRUE, !.cut = @ \cup {IF ev.crash THEN cur.c ELSE ev.obj}]>> \o Pop, calm, {})
    [] ev.e = "mgr" -> Manager(ev)
    [] ev.e = "end" -> End(ev)
    [] ev.e = "pend" -> PEnd(ev)
    [] ev.e = "restart" -> R(objs, <<>>, runs, calm, {})
    [] ev.e \in {"calm", "quiet", "rest"} -> R(objs, mgr, runs, ev.e, {})
    [] ev.e = "settled" -> Same(Settled(ev))
    [] ev.e = "polDel" ->
         LET used == \E k \in DOMAIN objs : IsCluster(objs[k]) /\ objs[k].ns = ev.ns /\ objs[k].backup = ev.policy IN
         Same(If(ev.ok /\ used, "C26", "a backup policy in use may be deleted") \cup If(~ev.ok /\ ~used, "C26", "an unused backup policy may not be deleted"))
    [] OTHER -> Same({})

Report(new) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2])

Init == l = 1 /\ objs = <<>> /\ mgr = <<>> /\ runs = <<>> /\ calm = "" /\ env = [sys |-> "", limit |-> 0, cms |-> <<>>] /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.e = "reset"
     THEN objs' = <<>> /\ mgr' = <<>> /\ runs' = <<>> /\ calm' = "" /\ env' = [sys |-> ev.sys, limit |-> ev.limit, cms |-> <<>>] /\ bad' = bad
     ELSE LET r == Step(ev) IN
          /\ objs' = r.objs /\ mgr' = r.mgr /\ runs' = r.runs /\ calm' = r.calm 
          /\ env' = IF ev.e = "write" /\ Live(ev.o) /\ IsConf(ev.o) THEN [env EXCEPT !.cms = (ev.key :> ConfText(ev.o)) @@ @] ELSE env
          /\ Report(r.v) /\ bad' = bad \cup {b[1] : b \in r.v}
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
