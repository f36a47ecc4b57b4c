----------------------------- MODULE ClusterTrace -----------------------------
(***************************************************************************)
(* Validates a trace recorded while the real clustering code of MOCO ran   *)
(* against the simulated world.  Every line names a step; the step is      *)
(* re-executed with the operators of Cluster.tla and the resulting         *)
(* instance must be the recorded one, otherwise the trace is rejected.     *)
(* Violated properties are reported and collected in `bad`.                *)
(***************************************************************************)
EXTENDS Cluster, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,      \* next line
          w,      \* the world
          h,      \* history of the current round
          bad     \* violations found so far

vars == <<l, w, h, bad>>

InstOf(p) ==
  [up |-> p.up, ro |-> p.ro, sro |-> p.sro, exec |-> Range(p.exec), pend |-> Range(p.pend), ret |-> Range(p.ret),
   purged |-> Range(p.purged), src |-> p.src, io |-> p.io, sql |-> p.sql, iosemi |-> p.iosemi,
   semim |-> p.semim, semis |-> p.semis, wait |-> p.wait, clone |-> p.clone]

ResetWorld(ev) ==
  LET Idx == {p.idx : p \in Range(ev.insts)}
      P(i) == CHOOSE p \in Range(ev.insts) : p.idx = i
      T == UNION {Range(p.exec) \cup Range(p.ret) \cup Range(p.pend) : p \in Range(ev.insts)}
      O(t) == CHOOSE o \in Range(ev.orgs) : o[1] = t
  IN [n |-> ev.n, ext |-> ev.ext, offline |-> ev.offline, restoring |-> ev.restoring, maxdelay |-> ev.maxdelay,
      noC01 |-> ev.noc01,
      inst |-> [i \in Idx |-> InstOf(P(i))], net |-> [i \in Idx |-> [hidden |-> P(i).hidden, cut |-> P(i).cut, slow |-> FALSE, behind |-> P(i).behind]],
      gen |-> [i \in Idx |-> P(i).gen], org |-> [t \in T |-> <<O(t)[2], O(t)[3]>>],
      acks |-> {}, own |-> {}, sess |-> {}, acked |-> Range(ev.acked), frag |-> {}, prim |-> ev.prim,
      pod |-> [i \in 0..(ev.n - 1) |-> [there |-> ev.pods[i+1].there, ready |-> ev.pods[i+1].ready, term |-> ev.pods[i+1].term,
                demote |-> ev.pods[i+1].demote, prevent |-> ev.pods[i+1].prevent, role |-> ev.pods[i+1].role]],
      status |-> [FreshStatus EXCEPT !.elist = Range(ev.elist), !.cloned = ev.cloned]]

StatusRec(ev) ==
  [state |-> ev.state, available |-> ev.available, healthy |-> ev.healthy, initialized |-> ev.initialized,
   elist |-> Range(ev.elist), synced |-> ev.synced, cloned |-> ev.cloned]

\* the step from w by ev: [ok |-> is it possible?, w |-> next world, v |-> violations]
R(ok, w2, v) == [ok |-> ok, w |-> w2, v |-> v]
Same(w2, i, p) == w2.inst[i] = InstOf(p)
\* operation of MOCO on instance ev.i
Op(w2, v, ev) == R(Same(w2, ev.i, ev.post), w2, v \cup VAct(w, h, ev.e))

\* a change made by the simulated environment
EnvStep(ev) ==
  CASE ev.e = "write" ->
         LET w2 == DoWrite(w, ev.i, ev.s, ev.t) IN
         R(CanWrite(w, ev.i, ev.s) /\ Same(w2, ev.i, ev.post) /\ w2.acked \ w.acked = Range(ev.acked), w2, VAck(w, w2, ev.i))
    [] ev.e = "inject" -> LET w2 == DoInject(w, ev.i, ev.t) IN R(Up(w, ev.i) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "retrieve" ->
         LET w2 == DoRetrieve(w, ev.i, ev.t) IN
         R(CanRetrieve(w, ev.i, ev.t) /\ w.inst[ev.i].src = ev.s /\ Same(w2, ev.i, ev.post) /\ Same(w2, ev.s, ev.spost)
             /\ w2.acked \ w.acked = Range(ev.acked), w2, VAck(w, w2, ev.s))
    [] ev.e = "apply" -> LET w2 == DoApply(w, ev.i, ev.t) IN R(CanApply(w, ev.i, ev.t) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "ioerr" -> LET w2 == DoIOErr(w, ev.i) IN R(CanIOErr(w, ev.i) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "crash" -> LET w2 == DoCrash(w, ev.i) IN R(Up(w, ev.i) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "restart" -> LET w2 == DoRestart(w, ev.i) IN R(~Up(w, ev.i) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "wipe" -> LET w2 == DoWipe(w, ev.i) IN R(~Up(w, ev.i) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "purge" -> LET w2 == DoPurge(w, ev.i) IN R(Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "clone" -> LET w2 == DoClone(w, ev.i, ev.s) IN R(Up(w, ev.i) /\ Up(w, ev.s) /\ Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "clonefail" -> LET w2 == [w EXCEPT !.inst[ev.i].clone = "Failed"] IN R(Same(w2, ev.i, ev.post), w2, {})
    [] ev.e = "open" -> R(Up(w, ev.i), DoOpen(w, ev.i, ev.s, ev.w), {})
    [] ev.e = "close" -> LET w2 == DoKill(w, ev.i, ev.s) IN R(w2.inst = w.inst, w2, {})
    [] ev.e = "net" ->
         R(TRUE, [w EXCEPT !.net[ev.i] = [hidden |-> ev.hidden, cut |-> ev.cut, slow |-> ev.slow, behind |-> ev.behind]], {})
    [] ev.e = "ready" -> R(TRUE, [w EXCEPT !.pod[ev.i].ready = ev.v], {})
    [] ev.e = "poddel" -> R(TRUE, [w EXCEPT !.pod[ev.i].term = TRUE], {})
    [] ev.e = "podgone" -> R(TRUE, [w EXCEPT !.pod[ev.i] = [FreshPod EXCEPT !.there = FALSE, !.ready = FALSE]], {})
    [] ev.e = "podnew" -> R(TRUE, [w EXCEPT !.pod[ev.i] = FreshPod], {})
    [] ev.e = "spec" -> R(TRUE, [w EXCEPT !.ext = ev.ext, !.offline = ev.offline, !.restoring = ev.restoring, !.maxdelay = ev.maxdelay], {})
    [] ev.e = "oldcopy" -> R(~Up(w, ev.i), [w EXCEPT !.inst[ev.i] = InstOf(ev.post)], {})
    [] ev.e = "scale" ->
         R(ev.n >= w.n, [w EXCEPT !.n = ev.n, !.pod = [i \in 0..(ev.n - 1) |->
              IF i \in DOMAIN w.pod THEN w.pod[i] ELSE [FreshPod EXCEPT !.there = FALSE, !.ready = FALSE]]], {})
    [] ev.e = "noc01" -> R(TRUE, [w EXCEPT !.noC01 = TRUE], {})

EnvEvents == {"write", "inject", "retrieve", "apply", "ioerr", "crash", "restart", "wipe", "purge", "clone", "clonefail",
              "open", "close", "net", "ready", "poddel", "podgone", "podnew", "spec", "oldcopy", "scale", "noc01"}

\* an operation of MOCO on a database instance
SQLStep(ev) ==
  CASE ev.e = "stopreplica" -> Op(DoStopReplica(w, ev.i), {}, ev)
    [] ev.e = "stopio" -> Op(DoStopIO(w, ev.i), {}, ev)
    [] ev.e = "stopsql" -> Op(DoStopSQL(w, ev.i), {}, ev)
    [] ev.e = "startreplica" -> Op(DoStartReplica(w, ev.i), VStart(w, h, ev.i), ev)
    [] ev.e = "resetreplica" -> Op(DoResetReplica(w, ev.i, ev.all), VReset(w, ev.i), ev)
    [] ev.e = "changesource" -> Op(DoChangeSource(w, ev.i, ev.s), VChange(w, h, ev.i, ev), ev)
    [] ev.e = "setsro" ->
         LET o == Op(DoSetSRO(w, ev.i, ev.on), {}, ev) IN [o EXCEPT !.ok = @ /\ CanSetSRO(w, ev.i, ev.on)]
    [] ev.e = "setro" -> Op(DoSetRO(w, ev.i, ev.on), IF ev.on THEN {} ELSE VWritable(w, h, ev.i), ev)
    [] ev.e = "setsemim" ->
         LET w2 == DoSetSemiM(w, ev.i, ev.on) IN
         [Op(w2, VAck(w, w2, ev.i), ev) EXCEPT !.ok = @ /\ w2.acked \ w.acked = Range(ev.acked)]
    [] ev.e = "setsemis" -> Op(DoSetSemiS(w, ev.i, ev.on), {}, ev)
    [] ev.e = "setwait" ->
         LET w2 == DoSetWait(w, ev.i, ev.n) IN
         [Op(w2, VAck(w, w2, ev.i), ev) EXCEPT !.ok = @ /\ w2.acked \ w.acked = Range(ev.acked)]
    [] ev.e = "settimeout" ->
         R(TRUE, w, VAct(w, h, ev.e) \cup If(w.n >= 3 /\ ~ev.long, "C01", "the semi-sync timeout lets writes be acknowledged without replicas"))
    [] ev.e = "kill" -> Op(DoKill(w, ev.i, ev.s), {}, ev)
    [] ev.e = "killsys" -> Op(w, {<<"C04", "a system connection was killed: " \o ev.user>>}, ev)
    [] ev.e = "clonereq" -> R(TRUE, w, VAct(w, h, ev.e) \cup VClone(w, h, ev.i, ev.s)
          \cup If(~ev.cred, "C10", "a clone was requested with wrong parameters"))

SQLEvents == {"stopreplica", "stopio", "stopsql", "startreplica", "resetreplica", "changesource", "setsro", "setro",
              "setsemim", "setsemis", "setwait", "settimeout", "kill", "killsys", "clonereq"}

\* an operation of MOCO on Kubernetes resources, or a mark of the driver
K8sStep(ev) ==
  CASE ev.e = "label" -> R(TRUE, [w EXCEPT !.pod[ev.i].role = ev.v], VLabel(w, h, ev.i, ev.v) \cup VAct(w, h, ev.e))
    [] ev.e = "demote" ->
         R(TRUE, [w EXCEPT !.pod[ev.i].demote = ev.v], IF ev.by = "env" THEN {} ELSE VDemote(w, ev.i, ev.v))
    [] ev.e = "prevent" ->
         R(TRUE, [w EXCEPT !.pod[ev.i].prevent = ev.v], IF ev.by = "env" THEN {} ELSE VPrevent(w, h, ev.i, ev.v))
    [] ev.e = "primary" -> R(TRUE, [w EXCEPT !.prim = ev.v], VPrimary(w, h, ev.v) \cup VAct(w, h, ev.e))
    [] ev.e = "status" ->
         LET st == StatusRec(ev) IN
         R(TRUE, [w EXCEPT !.status = st],
           IF ~h.pods /\ ~w.offline THEN {<<"C06", "the status of a cluster with missing pods was changed">>}
           ELSE VStatus(w, h, st @@ [agree |-> ev.same /\ ev.errant = Cardinality(st.elist)]))
    [] ev.e = "podother" -> R(TRUE, w, {<<"C05", "a pod was changed otherwise: " \o ev.what>>})
    [] ev.e = "mcother" -> R(TRUE, w, {<<"C05", "the MySQLCluster was changed otherwise: " \o ev.what>>})
    [] ev.e = "k8sother" -> R(TRUE, w, {<<"C12", "another resource was changed: " \o ev.what>>})
    [] ev.e = "frozen" -> R(TRUE, [w EXCEPT !.status = StatusRec(ev)], VFrozen(w, StatusRec(ev)) \cup
          If(~ev.metrics, "C06", "the exported metrics do not agree with the status"))
    [] ev.e = "quiesce" -> R(TRUE, w, VQuiesce(w))
    [] ev.e = "errantsettled" -> R(TRUE, w, VErrantSettled(w))
    [] ev.e = "switched" -> R(TRUE, w, VSwitched(w, ev.from, ev.clean))
    [] ev.e = "failedover" -> R(TRUE, w, VFailedOver(w, ev.from))
    [] ev.e = "delaysettled" -> R(TRUE, w, VDelaySettled(w))
    [] ev.e = "stalled" -> R(TRUE, w, {<<"C12", "maintenance does not go on: " \o ev.what>>})

K8sEvents == {"label", "demote", "prevent", "primary", "status", "podother", "mcother", "k8sother", "frozen", "quiesce",
              "errantsettled", "switched", "failedover", "delaysettled", "stalled"}

Step(ev) ==
  IF ev.e \in EnvEvents THEN EnvStep(ev)
  ELSE IF ev.e \in SQLEvents THEN SQLStep(ev)
  ELSE IF ev.e \in K8sEvents THEN K8sStep(ev)
  ELSE R(TRUE, w, {})

Report(new) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2])

Init == /\ l = 1 /\ w = [n |-> 0] /\ h = [none |-> 0] /\ bad = {}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.e = "reset"
     THEN /\ w' = ResetWorld(ev) /\ h' = NewRound(ResetWorld(ev)) /\ bad' = bad
     ELSE LET r == Step(ev)
              new == r.v \cup (VState(r.w) \ VState(w))
          IN /\ IF r.ok THEN TRUE ELSE PrintT("REJECT|" \o ToString(l) \o "|" \o ToString(ev)) /\ FALSE
             /\ w' = r.w
             /\ h' = IF ev.e = "cycle" THEN NewRound(r.w)
                     ELSE IF ev.e = "frozen" THEN [h EXCEPT !.must = Classify(w)]
                     ELSE IF ev.e \in {"unreach", "opfail"} /\ ev.i >= 0 THEN [Extend(h, r.w) EXCEPT !.down = @ \cup {ev.i}]
                     ELSE IF r.w = w THEN h
                     ELSE IF ev.e \in EnvEvents THEN [Extend(h, r.w) EXCEPT !.must = ""] ELSE Extend(h, r.w)
             /\ Report(new)
             /\ bad' = bad \cup {b[1] : b \in new}

Spec == Init /\ [][Next]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
