------------------------------ MODULE RolloutMC ------------------------------
(***************************************************************************)
(* The design of rolling updates: the reconciler of MySQLCluster applies   *)
(* a new template, the webhook re-arms the partition, the partition        *)
(* controller lowers it step by step, and the StatefulSet controller of    *)
(* Kubernetes replaces the pods at or above the partition from the top.    *)
(* Every controller works from what it read before, may crash, and is      *)
(* interleaved with the others, with users and with failing pods.          *)
(* OptLock, GenGate: FALSE gives deliberately wrong variants.              *)
(***************************************************************************)
EXTENDS Operator
CONSTANTS N, Changes, Fails, Crashes, OptLock, GenGate
VARIABLES want, gen, recGen,  \* the MySQLCluster
          sts, pods, healthy, \* the StatefulSet, its pods, the condition Healthy
          rc, pc,             \* the reconciler and the partition controller
          decided,            \* the pods that the partition controller released, with the change they were released for
          budget, bad
vars == <<want, gen, recGen, sts, pods, healthy, rc, pc, decided, budget, bad>>
I == 0 .. (N - 1)
Idle == [st |-> "idle"]
Init == /\ want = 1 /\ gen = 1 /\ recGen = 1
        /\ sts = [tmpl |-> 1, tgen |-> 1, part |-> 0, gen |-> 1, obs |-> 1, rev |-> 1, updated |-> N, rv |-> 1]
        /\ pods = [i \in I |-> [up |-> TRUE, rev |-> 1, ready |-> TRUE]]
        /\ healthy = TRUE /\ rc = Idle /\ pc = Idle /\ decided = {}
        /\ budget = [change |-> Changes, fail |-> Fails, crash |-> Crashes] /\ bad = {}

User == /\ budget.change > 0 /\ budget' = [budget EXCEPT !.change = @ - 1]
        /\ want' = 3 - want /\ gen' = gen + 1
        /\ UNCHANGED <<recGen, sts, pods, healthy, rc, pc, decided, bad>>

RRead == /\ rc.st = "idle" /\ (recGen # gen \/ sts.tmpl # want) /\ rc' = [st |-> "read", t |-> want, g |-> gen]
         /\ UNCHANGED <<want, gen, recGen, sts, pods, healthy, pc, decided, budget, bad>>
\* the webhook arms the partition because the template changes
RApply == /\ rc.st = "read" /\ rc' = [rc EXCEPT !.st = "applied"]
          /\ sts' = IF sts.tmpl = rc.t THEN sts ELSE [sts EXCEPT !.tmpl = rc.t, !.tgen = @ + 1, !.part = N, !.gen = @ + 1, !.rv = @ + 1]
          /\ UNCHANGED <<want, gen, recGen, pods, healthy, pc, decided, budget, bad>>
RRecord == /\ rc.st = "applied" /\ rc' = Idle /\ recGen' = rc.g
           /\ UNCHANGED <<want, gen, sts, pods, healthy, pc, decided, budget, bad>>
Crash == /\ budget.crash > 0 /\ (rc.st # "idle" \/ pc.st # "idle")
         /\ budget' = [budget EXCEPT !.crash = @ - 1] /\ rc' = Idle /\ pc' = Idle
         /\ UNCHANGED <<want, gen, recGen, sts, pods, healthy, decided, bad>>

\* the StatefulSet controller
Count(t) == Cardinality({i \in I : pods[i].up /\ pods[i].rev = t})
SStatus == LET n == [sts EXCEPT !.obs = sts.gen, !.rev = sts.tmpl, !.updated = Count(sts.tmpl)] IN
           /\ n # sts /\ sts' = [n EXCEPT !.rv = @ + 1]
           /\ UNCHANGED <<want, gen, recGen, pods, healthy, rc, pc, decided, budget, bad>>
SCreate(i) == /\ ~pods[i].up
              /\ pods' = [pods EXCEPT ![i] = [up |-> TRUE, rev |-> IF i >= sts.part THEN sts.tmpl ELSE @.rev, ready |-> FALSE]]
              /\ UNCHANGED <<want, gen, recGen, sts, healthy, rc, pc, decided, budget, bad>>
SDelete(i) == /\ i >= sts.part /\ pods[i].up /\ pods[i].rev # sts.tmpl
              /\ \A j \in I : j > i => pods[j].ready /\ pods[j].rev = sts.tmpl
              /\ \A j \in I : pods[j].up
              /\ pods' = [pods EXCEPT ![i].up = FALSE, ![i].ready = FALSE]
              /\ bad' = bad \cup If(<<sts.tgen, i>> \notin decided, "C15", "a pod was replaced that was not released for this change")
              /\ UNCHANGED <<want, gen, recGen, sts, healthy, rc, pc, decided, budget>>
Start(i) == /\ pods[i].up /\ ~pods[i].ready /\ pods' = [pods EXCEPT ![i].ready = TRUE]
            /\ UNCHANGED <<want, gen, recGen, sts, healthy, rc, pc, decided, budget, bad>>
Fail(i) == /\ budget.fail > 0 /\ budget' = [budget EXCEPT !.fail = @ - 1]
           /\ pods[i].ready /\ pods' = [pods EXCEPT ![i].ready = FALSE]
           /\ UNCHANGED <<want, gen, recGen, sts, healthy, rc, pc, decided, bad>>
Clustering == LET h == \A i \in I : pods[i].ready IN
              /\ h # healthy /\ healthy' = h
              /\ UNCHANGED <<want, gen, recGen, sts, pods, rc, pc, decided, budget, bad>>

\* the partition controller
PRead == /\ pc.st = "idle" /\ sts.part > 0 /\ pc' = [st |-> "read", s |-> sts]
         /\ UNCHANGED <<want, gen, recGen, sts, pods, healthy, rc, decided, budget, bad>>
PCluster == /\ pc.st = "read"
            /\ pc' = IF GenGate /\ (gen # recGen \/ pc.s.gen # pc.s.obs) THEN Idle ELSE [st |-> "cluster", s |-> pc.s, healthy |-> healthy]
            /\ UNCHANGED <<want, gen, recGen, sts, pods, healthy, rc, decided, budget, bad>>
Seen(s) == [i \in {i \in I : pods[i].up} |->
              [updated |-> pods[i].rev = s.rev, ready |-> pods[i].ready, avail |-> pods[i].ready, ctrs |-> pods[i].ready, deleting |-> FALSE]]
PList == /\ pc.st = "cluster"
         /\ pc' = IF MayRoll(pc.s.part, N, pc.s.updated, Seen(pc.s), pc.healthy) THEN [st |-> "go", s |-> pc.s] ELSE Idle
         /\ UNCHANGED <<want, gen, recGen, sts, pods, healthy, rc, decided, budget, bad>>
PPatch == /\ pc.st = "go" /\ pc' = Idle
          /\ IF OptLock /\ sts.rv # pc.s.rv THEN UNCHANGED <<sts, decided, bad>>
             ELSE /\ sts' = [sts EXCEPT !.part = pc.s.part - 1, !.gen = @ + 1, !.rv = @ + 1]
                  /\ decided' = decided \cup {<<pc.s.tgen, pc.s.part - 1>>}
                  /\ bad' = bad \cup If(sts.part # pc.s.part, "C15", "the partition was not lowered by one")
          /\ UNCHANGED <<want, gen, recGen, pods, healthy, rc, budget>>

Work == RRead \/ RApply \/ RRecord \/ SStatus \/ Clustering \/ PRead \/ PCluster \/ PList \/ PPatch \/ \E i \in I : SCreate(i) \/ SDelete(i) \/ Start(i)
Next == Work \/ User \/ Crash \/ \E i \in I : Fail(i)
\* every controller keeps working
Fair == /\ WF_vars(RRead) /\ WF_vars(RApply) /\ WF_vars(RRecord) /\ WF_vars(SStatus) /\ WF_vars(Clustering)
        /\ WF_vars(PRead) /\ WF_vars(PCluster) /\ WF_vars(PList) /\ WF_vars(PPatch)
        /\ \A i \in I : WF_vars(SCreate(i)) /\ WF_vars(SDelete(i)) /\ WF_vars(Start(i))
Spec == Init /\ [][Next]_vars /\ Fair

NothingBad == bad = {}
\* without other failures at most one pod is down
OneAtATime == budget.fail = Fails => Cardinality({i \in I : ~pods[i].ready}) <= 1
Done == sts.tmpl = want /\ sts.part = 0 /\ \A i \in I : pods[i].ready /\ pods[i].rev = want
RolloutFinishes == <>[]Done
=============================================================================
