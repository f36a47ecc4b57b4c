------------------------------ MODULE ClusterMC ------------------------------
(***************************************************************************)
(* The clustering algorithm of MOCO, as documented in docs/clustering.md,  *)
(* running on the world of Cluster.tla: an explicit controller that        *)
(* gathers observations, decides the state of the cluster, and performs    *)
(* one operation after another while the environment goes on.  A round may *)
(* be abandoned at any point, which covers failing requests as well as     *)
(* crashes of the controller.  The invariant is that no step violates a    *)
(* property, judged by the very operators that judge recorded traces.      *)
(***************************************************************************)
EXTENDS Cluster

CONSTANTS N, WithExt, Fresh, MaxTxn, MaxFault, MaxMark, MaxWipe, MaxPurge, MaxErrant, Reckless

VARIABLES w, h, m, b, bad, dirty, gone
vars == <<w, h, m, b, bad, dirty, gone>>

P0 == 0
HealthyWorld ==
  LET I(i) == IF i = Ext THEN [FreshInst EXCEPT !.ro = FALSE, !.sro = FALSE, !.exec = {1}]
              ELSE IF i = P0
                   THEN IF WithExt THEN [FreshInst EXCEPT !.exec = {1}, !.src = Ext, !.io = TRUE, !.sql = TRUE, !.clone = "Completed"]
                        ELSE [FreshInst EXCEPT !.exec = {1}, !.ro = FALSE, !.sro = FALSE, !.semim = N > 1, !.wait = N \div 2]
                   ELSE [FreshInst EXCEPT !.exec = {1}, !.src = P0, !.io = TRUE, !.sql = TRUE, !.semis = ~WithExt, !.iosemi = ~WithExt]
      D == (0..(N - 1)) \cup (IF WithExt THEN {Ext} ELSE {})
  IN [n |-> N, ext |-> WithExt, offline |-> FALSE, restoring |-> FALSE, maxdelay |-> 0, noC01 |-> Reckless,
      inst |-> [i \in D |-> I(i)], net |-> [i \in D |-> FreshNet], gen |-> [i \in D |-> 0],
      org |-> (1 :> <<IF WithExt THEN Ext ELSE P0, 0>>), acks |-> {}, own |-> {}, sess |-> {}, acked |-> {}, frag |-> {},
      prim |-> P0, pod |-> [i \in 0..(N - 1) |-> [FreshPod EXCEPT !.role = IF i = P0 THEN "primary" ELSE "replica"]],
      status |-> [FreshStatus EXCEPT !.cloned = WithExt]]
FreshWorld ==
  [HealthyWorld EXCEPT !.inst = [i \in DOMAIN @ |-> IF i = Ext THEN @[i] ELSE FreshInst],
     !.pod = [i \in DOMAIN @ |-> FreshPod], !.status = FreshStatus,
     !.org = IF WithExt THEN @ ELSE [t \in {} |-> <<0, 0>>]]

Idle == [pc |-> "idle", o |-> [n |-> 0], ops |-> <<>>]

Init ==
  /\ w = IF Fresh THEN FreshWorld ELSE HealthyWorld
  /\ h = NewRound(w) /\ m = Idle /\ bad = {} /\ dirty = {} /\ gone = {}
  /\ b = [txn |-> MaxTxn, fault |-> MaxFault, mark |-> MaxMark, wipe |-> MaxWipe, purge |-> MaxPurge, errant |-> MaxErrant]

-----------------------------------------------------------------------------
(* The environment *)

NewId == 2 + (MaxTxn + MaxErrant) - (b.txn + b.errant)
Sound(i) ==
  LET I == w.inst[i] IN
  /\ Reach(w, i) /\ ~w.net[i].cut
  /\ IF i = w.prim THEN w.acked \subseteq I.exec /\ (I.exec # {} \/ \A j \in Pods(w) : w.inst[j].exec = {})
     ELSE /\ I.exec # {} \/ \A j \in Pods(w) : w.inst[j].exec = {}
          /\ \/ w.acked = {} /\ w.inst[w.prim].exec = {}
             \/ I.io /\ I.src = w.prim /\ (i \notin dirty \/ w.acked \subseteq Have(w, i))
          /\ ErrantTxns(w, i) = {}
MayHurt(k) == Reckless \/ Cardinality({i \in Pods(w) : i = k \/ ~Sound(i)}) <= w.n \div 2

EnvTo(w2, v) ==
  /\ w' = w2 /\ h' = Extend(h, w2) /\ bad' = bad \cup v \cup VState(w2)
  /\ m' = m /\ UNCHANGED dirty
Quiet(w2) == EnvTo(w2, {}) /\ UNCHANGED <<b, gone>>

Write(i) ==
  /\ b.txn > 0
  /\ \E x \in w.sess : /\ x.i = i /\ x.wr /\ CanWrite(w, i, x.s)
                       /\ LET w2 == DoWrite(w, i, x.s, NewId) IN EnvTo(w2, VAck(w, w2, i))
  /\ b' = [b EXCEPT !.txn = @ - 1] /\ UNCHANGED gone
ExtWrite ==
  /\ WithExt /\ b.txn > 0 /\ EnvTo(DoInject(w, Ext, NewId), {})
  /\ b' = [b EXCEPT !.txn = @ - 1] /\ UNCHANGED gone
Errant(i) ==
  /\ b.errant > 0 /\ i # w.prim /\ Up(w, i) /\ w.inst[w.prim].exec # {} /\ MayHurt(i)
  /\ EnvTo(DoInject(w, i, NewId), {}) /\ b' = [b EXCEPT !.errant = @ - 1] /\ UNCHANGED gone
Open ==
  \* one writer, connected through the service of the primary
  \E i \in Pods(w) :
    /\ w.pod[i].role = "primary" /\ Up(w, i) /\ w.sess = {} /\ b.txn > 0 /\ ~WithExt
    /\ Quiet(DoOpen(w, i, 1, TRUE))
Retrieve(r) ==
  \E t \in DOMAIN w.org :
    /\ CanRetrieve(w, r, t)
    /\ \A u \in DOMAIN w.org : u < t => ~CanRetrieve(w, r, u)
    /\ LET w2 == DoRetrieve(w, r, t) IN EnvTo(w2, VAck(w, w2, w.inst[r].src)) /\ UNCHANGED <<b, gone>>
IOErr(r) == CanIOErr(w, r) /\ Quiet(DoIOErr(w, r))
Apply(r) ==
  \E t \in DOMAIN w.org :
    /\ CanApply(w, r, t) /\ \A u \in DOMAIN w.org : u < t => ~CanApply(w, r, u)
    /\ Quiet(DoApply(w, r, t))
Crash(i) ==
  /\ b.fault > 0 /\ Up(w, i) /\ MayHurt(i)
  /\ EnvTo(DoCrash(w, i), {}) /\ b' = [b EXCEPT !.fault = @ - 1] /\ UNCHANGED gone
Restart(i) == ~Up(w, i) /\ Quiet(DoRestart(w, i))
Wipe(i) ==
  /\ b.wipe > 0 /\ w.inst[i].exec # {} /\ MayHurt(i) /\ ~Reckless
  /\ EnvTo(DoWipe(DoCrash(w, i), i), {}) /\ b' = [b EXCEPT !.wipe = @ - 1] /\ UNCHANGED gone
Hide(i) ==
  /\ ~w.net[i].hidden /\ b.fault > 0 /\ MayHurt(i)
  /\ EnvTo([w EXCEPT !.net[i].hidden = TRUE], {}) /\ b' = [b EXCEPT !.fault = @ - 1] /\ UNCHANGED gone
Unhide(i) == w.net[i].hidden /\ Quiet([w EXCEPT !.net[i].hidden = FALSE])
Cut(i) ==
  /\ ~w.net[i].cut /\ b.fault > 0 /\ MayHurt(i)
  /\ EnvTo([w EXCEPT !.net[i].cut = TRUE], {}) /\ b' = [b EXCEPT !.fault = @ - 1] /\ UNCHANGED gone
Uncut(i) == w.net[i].cut /\ Quiet([w EXCEPT !.net[i].cut = FALSE])
Purge(i) ==
  /\ b.purge > 0 /\ w.inst[i].purged # w.inst[i].exec
  /\ EnvTo(DoPurge(w, i), {}) /\ b' = [b EXCEPT !.purge = @ - 1] /\ UNCHANGED gone
Demote ==
  /\ b.mark > 0 /\ ~w.pod[w.prim].demote
  /\ EnvTo([w EXCEPT !.pod[w.prim].demote = TRUE], {}) /\ b' = [b EXCEPT !.mark = @ - 1] /\ gone' = gone

EnvNext ==
  \/ \E i \in Pods(w) : Write(i) \/ Errant(i) \/ Retrieve(i) \/ IOErr(i) \/ Apply(i) \/ Crash(i) \/ Restart(i)
                        \/ Wipe(i) \/ Hide(i) \/ Unhide(i) \/ Cut(i) \/ Uncut(i) \/ Purge(i)
  \/ ExtWrite \/ Open \/ Demote

-----------------------------------------------------------------------------
(* The controller *)

RECURSIVE Cat(_, _)
Cat(F(_), S) ==
  IF S = {} THEN <<>>
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN F(i) \o Cat(F, S \ {i})
If1(c, s) == IF c THEN s ELSE <<>>
OpI(k, i) == [k |-> k, i |-> i, v |-> ""]

Attach(i, s, semi) ==
  <<OpI("stopreplica", i), [k |-> "changesource", i |-> i, v |-> s], [k |-> "setsemis", i |-> i, v |-> semi],
    [k |-> "setsemim", i |-> i, v |-> FALSE], OpI("startreplica", i)>>
IOYes(o, i) == o.inst[i].src # NoSrc /\ Connected(o, i)

ConfigureOps(o, E) ==
  LET P == o.prim
      Rep == Replicas(o)
      good(i) == IF i = P THEN "primary" ELSE "replica"
      proper(i) == o.pod[i].role = good(i) /\ i \notin E
      noRole == {i \in Pods(o) : ~proper(i)}
      alive == {i \in noRole : Usable(o, i) /\ i \notin E}
      I == o.inst[P]
      unlabel(i) == If1(o.pod[i].role # "", <<[k |-> "label", i |-> i, v |-> ""]>>)
      killall(i) == <<OpI("killall", i)>>
      relabel(i) == <<[k |-> "label", i |-> i, v |-> good(i)]>>
      primary == IF WithExt
                 THEN If1(~I.sro, <<OpI("setsro", P)>>) \o If1(~(I.src = Ext /\ IOYes(o, P)), Attach(P, Ext, FALSE))
                 ELSE If1(IOYes(o, P), <<OpI("stopio", P)>>)
                      \o If1(I.src # NoSrc, <<OpI("waitret", P)>>)
                      \o If1(N > 1 /\ ~(I.semim /\ I.wait = N \div 2),
                             <<[k |-> "setwait", i |-> P, v |-> N \div 2], [k |-> "setsemim", i |-> P, v |-> TRUE]>>)
      replica(i) ==
        LET R == o.inst[i] IN
        IF ~Usable(o, i) THEN <<>>
        ELSE IF i \in E THEN If1(IOYes(o, i), <<OpI("stopio", i)>>)
        ELSE If1(~R.sro, <<OpI("killall", i), OpI("setsro", i)>>)
             \o If1(R.exec = {} /\ I.exec # {} /\ R.src = NoSrc, <<[k |-> "clone", i |-> i, v |-> P]>>)
             \o IF ~(I.purged \subseteq R.exec) THEN <<OpI("fail", i)>>
                ELSE If1(R.src # P \/ ~IOYes(o, i) \/ R.semis # ~WithExt, Attach(i, P, ~WithExt))
  IN Cat(unlabel, noRole) \o Cat(killall, alive) \o primary \o Cat(replica, Rep) \o Cat(relabel, alive)
     \o If1(~WithExt /\ I.ro, <<OpI("writable", P)>>)

SwitchOps(o, E) ==
  LET C == CHOOSE i \in {i \in Replicas(o) : ReplicaOK(o, i)} : \A j \in Replicas(o) : ReplicaOK(o, j) => i <= j
  IN <<OpI("setsro", o.prim), OpI("killall", o.prim), [k |-> "waitexec", i |-> C, v |-> o.prim],
       [k |-> "primary", i |-> C, v |-> ""], OpI("undemote", o.prim)>>
FailOps(o, E) ==
  LET stop(i) == If1(Usable(o, i), <<OpI("stopio", i)>>) IN Cat(stop, Replicas(o)) \o <<OpI("elect", o.prim)>>

Decide(o) ==
  LET s == Classify(o)
      E == ErrantOf(o)
  IN CASE s \in {"Healthy", "Degraded"} ->
            IF Marked(o, o.prim) /\ (\E i \in Replicas(o) : ReplicaOK(o, i)) THEN SwitchOps(o, E)
            ELSE IF s = "Degraded" \/ Todo(o) # {} THEN ConfigureOps(o, E) ELSE <<>>
       [] s = "Failed" -> FailOps(o, E)
       [] s = "Incomplete" -> ConfigureOps(o, E)
       [] s = "Cloning" /\ Reach(o, o.prim) /\ o.inst[o.prim].clone \in {"", "Failed"} -> <<[k |-> "clone", i |-> o.prim, v |-> Ext]>>
       [] OTHER -> <<>>

Begin == /\ m.pc = "idle" /\ m' = [m EXCEPT !.pc = "g1", !.o = w] /\ h' = NewRound(w) /\ UNCHANGED <<w, b, bad, dirty, gone>>
Recheck ==
  /\ m.pc = "g1" /\ UNCHANGED <<w, h, b, bad, dirty, gone>>
  /\ IF Reach(m.o, w.prim) /\ ~Reach(w, w.prim) THEN m' = Idle
     ELSE m' = [m EXCEPT !.pc = "decide", !.o.inst[w.prim] = IF Reach(m.o, w.prim) THEN w.inst[w.prim] ELSE @]
Status ==
  /\ m.pc = "decide"
  /\ LET o == m.o
         st == StatusOf(o)
         w2 == [w EXCEPT !.status = st]
     IN /\ w' = w2 /\ h' = Extend(h, w2)
        /\ bad' = bad \cup (IF st = w.status THEN {} ELSE VStatus(w, h, st @@ [agree |-> TRUE])) \cup VState(w2)
        /\ m' = [Idle EXCEPT !.pc = "ops", !.o = [prim |-> o.prim, elist |-> st.elist, use |-> {i \in Pods(o) : Usable(o, i)}],
                             !.ops = Decide(o)]
        /\ UNCHANGED <<b, dirty, gone>>
Done == m.pc = "ops" /\ m.ops = <<>> /\ m' = Idle /\ UNCHANGED <<w, h, b, bad, dirty, gone>>
\* a request fails, or MOCO is restarted
Abandon == m.pc # "idle" /\ m' = Idle /\ UNCHANGED <<w, h, b, bad, dirty, gone>>

To(w2, v, what) ==
  /\ w' = w2 /\ h' = Extend(h, w2) /\ m' = [m EXCEPT !.ops = Tail(@)]
  /\ bad' = bad \cup v \cup (IF what = "" THEN {} ELSE VAct(w, h, what)) \cup VState(w2)
  /\ UNCHANGED <<b, gone>>
Clean == UNCHANGED dirty
RECURSIVE KillAll(_, _)
KillAll(v, i) ==
  IF ~ \E x \in v.sess : x.i = i THEN v
  ELSE LET x == CHOOSE x \in v.sess : x.i = i IN KillAll(DoKill(v, i, x.s), i)

\* the replica to promote: the one that has received everything the other participants have
Elect ==
  LET parts == {i \in m.o.use \ {w.prim} : i \notin m.o.elist}
      runs == {i \in parts : w.inst[i].src # NoSrc}
      top == {i \in runs : \A j \in runs : Have(w, j) \subseteq Have(w, i)}
  IN IF (\A i \in parts : Reach(w, i)) /\ top # {}
     THEN LET c == CHOOSE i \in top : \A j \in top : i <= j IN
          m' = [m EXCEPT !.ops = <<OpI("waitret", c), [k |-> "primary", i |-> c, v |-> ""]>>]
     ELSE m' = Idle

Op ==
  /\ m.pc = "ops" /\ m.ops # <<>>
  /\ LET op == Head(m.ops)
         i == op.i
     IN CASE op.k = "elect" -> Elect /\ UNCHANGED <<w, h, b, bad, dirty, gone>>
          [] op.k = "label" -> To([w EXCEPT !.pod[i].role = op.v], VLabel(w, h, i, op.v), "label") /\ Clean
          [] op.k = "primary" -> To([w EXCEPT !.prim = i], VPrimary(w, h, i), "primary") /\ Clean
          [] op.k = "undemote" ->
               IF w.pod[i].demote THEN To([w EXCEPT !.pod[i].demote = FALSE], VDemote(w, i, FALSE), "") /\ Clean
               ELSE To(w, {}, "") /\ Clean
          [] op.k = "fail" -> m' = Idle /\ UNCHANGED <<w, h, b, bad, dirty, gone>>
          [] OTHER ->
             IF ~Reach(w, i) THEN m' = Idle /\ UNCHANGED <<w, h, b, bad, dirty, gone>>
             ELSE
             CASE op.k = "killall" -> To(KillAll(w, i), {}, "killall") /\ Clean
               [] op.k = "setsro" ->
                    IF CanSetSRO(w, i, TRUE) THEN To(DoSetSRO(w, i, TRUE), {}, "setsro") /\ Clean
                    ELSE \* it waits for running writes; MOCO kills them after a while
                         LET w2 == KillAll(w, i) IN
                         /\ w2 # w /\ w' = w2 /\ h' = Extend(h, w2) /\ bad' = bad \cup VAct(w, h, "killall") \cup VState(w2)
                         /\ UNCHANGED <<m, b, dirty, gone>>
               [] op.k = "waitexec" -> w.inst[op.v].exec \subseteq w.inst[i].exec /\ To(w, {}, "") /\ Clean
               [] op.k = "waitret" -> w.inst[i].ret \subseteq w.inst[i].exec /\ To(w, {}, "") /\ Clean
               [] op.k = "stopio" -> To(DoStopIO(w, i), {}, "stopio") /\ Clean
               [] op.k = "stopreplica" -> To(DoStopReplica(w, i), {}, "stopreplica") /\ Clean
               [] op.k = "changesource" ->
                    /\ To(DoChangeSource(w, i, op.v), VChange(w, h, i, [s |-> op.v, auto |-> TRUE, cred |-> TRUE]), "changesource")
                    /\ dirty' = IF w.inst[i].ret \subseteq w.inst[i].exec THEN dirty ELSE dirty \cup {i}
               [] op.k = "startreplica" -> To(DoStartReplica(w, i), VStart(w, h, i), "startreplica") /\ Clean
               [] op.k = "setsemis" -> To(DoSetSemiS(w, i, op.v), {}, "setsemis") /\ Clean
               [] op.k = "setsemim" -> LET w2 == DoSetSemiM(w, i, op.v) IN To(w2, VAck(w, w2, i), "setsemim") /\ Clean
               [] op.k = "setwait" -> LET w2 == DoSetWait(w, i, op.v) IN To(w2, VAck(w, w2, i), "setwait") /\ Clean
               [] op.k = "writable" ->
                    \* consecutive statements: mysqld does not restart in between
                    LET w1 == IF N > 1 THEN DoSetSemiM(DoSetWait(w, i, N \div 2), i, TRUE) ELSE w
                        w2 == DoResetReplica(DoStopReplica(w1, i), i, FALSE)
                    IN To(DoSetRO(w2, i, FALSE), VReset(w1, i) \cup VWritable(w2, h, i) \cup VAck(w, w1, i), "setro") /\ Clean
               [] op.k = "clone" ->
                    IF Up(w, op.v) THEN To(DoClone(w, i, op.v), VClone(w, h, i, op.v), "clone") /\ Clean
                    ELSE m' = Idle /\ UNCHANGED <<w, h, b, bad, dirty, gone>>

MOCO == Begin \/ Recheck \/ Status \/ Done \/ Op
Next == EnvNext \/ MOCO \/ Abandon
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
TypeOK == /\ w.prim \in Pods(w) /\ \A i \in DOMAIN w.inst : w.inst[i].exec \subseteq DOMAIN w.org
\* the errant record is sound while the primary can be consulted, etc. are part of NoViolation

(* Liveness: if faults cease and rounds complete, the cluster becomes fully configured. *)
Restoration == \A i \in Pods(w) : WF_vars(Restart(i)) /\ WF_vars(Unhide(i)) /\ WF_vars(Uncut(i)) /\ WF_vars(Retrieve(i)) /\ WF_vars(Apply(i))
Live == Spec /\ Restoration /\ WF_vars(MOCO)
Recovered == VQuiesce(w) = {}
==============================================================================
