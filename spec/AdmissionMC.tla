----------------------------- MODULE AdmissionMC -----------------------------
(***************************************************************************)
(* What sequences of accepted updates can do to a MySQLCluster, and of     *)
(* accepted requests to the partition of its StatefulSet.                  *)
(***************************************************************************)
EXTENDS Admission
CONSTANTS Replicas, Sizes, Sources, Restores
VARIABLES spec, first, wasSource, sts
vars == <<spec, first, wasSource, sts>>
Classes == [grow |-> [expand |-> TRUE, default |-> FALSE], fixed |-> [expand |-> FALSE, default |-> TRUE]]
Specs == {[replicas |-> r, base |-> 1, cron |-> "", rotate |-> 0, src |-> s, restore |-> q, vcts |-> <<[name |-> "mysql-data", size |-> z, class |-> c]>>,
           ctrs |-> <<[name |-> n, ports |-> <<>>]>>, inits |-> <<>>, vols |-> v, noslow |-> FALSE, collectors |-> FALSE] :
          r \in Replicas, s \in Sources, q \in Restores, z \in Sizes, c \in {"", "grow", "fixed"}, n \in {"mysqld", "agent"}, v \in {<<>>, <<"shared">>}}
Init == /\ spec \in {s \in Specs : CreateErrors(1, s) = {}} /\ first = spec /\ wasSource = (spec.src # "")
        /\ sts = [part |-> spec.replicas, t |-> 1, n |-> spec.replicas, safe |-> TRUE]
Update == \E s \in Specs : /\ UpdateErrors(spec, s, Classes, FALSE) = {}
                           /\ spec' = s /\ wasSource' = (wasSource /\ s.src # "") /\ UNCHANGED <<first, sts>>
Req(p, t, n) == [create |-> FALSE, owners |-> <<[kind |-> "MySQLCluster", api |-> "moco.cybozu.com/v1beta2"]>>, force |-> "", req |-> p, old |-> sts.part,
                 spec |-> <<t, n>>, oldSpec |-> <<sts.t, sts.n>>, replicas |-> n]
\* MOCO applies a template; somebody (the partition controller, or anyone) asks for a partition
Store(p, t, n) == sts' = [part |-> PartitionOf(Req(p, t, n)), t |-> t, n |-> n, safe |-> (t = sts.t /\ n = sts.n) \/ PartitionOf(Req(p, t, n)) = n]
Apply == (\E t \in 1 .. 2 : \E p \in {-1, sts.part, 0} : Store(p, t, spec.replicas)) /\ UNCHANGED <<spec, first, wasSource>>
Lower == (\E p \in 0 .. 5 : Store(p, sts.t, sts.n)) /\ UNCHANGED <<spec, first, wasSource>>
Next == Update \/ Apply \/ Lower
Spec == Init /\ [][Next]_vars
Valid == SpecErrors(spec) = {} /\ OddPositive(spec.replicas)
Grows == [][spec'.replicas >= spec.replicas /\ spec'.restore = spec.restore]_vars
SourceOnlyOnce == spec.src # "" => wasSource /\ spec.src = first.src
NeverUnarmed == sts.safe
=============================================================================
