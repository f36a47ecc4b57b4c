import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

CL=["clustering/process.go","clustering/operations.go","clustering/status.go","pkg/dbop"]
p("C01","Acknowledged writes survive failover and switchover",
 "In a cluster of 3 or more replicas without an external source, every transaction whose commit was acknowledged to a client is present on whichever instance MOCO makes the primary, both when it is chosen and whenever it accepts writes. This holds across failovers, switchovers, controller crashes and instance restarts as long as no more than half (rounded down) of the instances are impaired at the same time (down, unreachable, without their data, or restarted and not yet configured again).",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of client commits, replication progress, instance crashes/restarts/data loss, lost connections and controller restarts with the steps of failover, switchover and configuration",
 "The tests drive a handful of scripted failovers against a mock whose GTIDs are plain strings and which has no semi-sync acknowledgement, no relay-log loss and no partial failure in the middle of an operation.",
 CL,[("semi-sync wait count = replicas/2, configured before writes are allowed","clustering/operations.go configurePrimary"),("IO threads stopped, most advanced replica chosen, relay log drained before promotion","clustering/operations.go failover, pkg/dbop/gtid.go"),("candidate waits for all transactions of the read-only old primary","clustering/operations.go switchover")],
 [("currentPrimaryIndex","recorded primary","MySQLCluster.status")],["SQL statements at each mysqld","MySQLCluster status"])
p("C02","Only the recorded primary ever acknowledges client writes",
 "MOCO makes an instance writable only while that instance is the recorded primary of a cluster without an external source. From the moment another instance is recorded as the primary, no instance other than the recorded primary acknowledges a client write, even if the old primary is alive but unreachable from MOCO.",
 ["schedules","crash_points","fault_sequences"],
 "all interleavings of client writes on old and new connections with failover/switchover steps, partitions between MOCO and instances, and controller crashes between steps",
 "The mock instances of the tests have no clients, so nothing observes who could still commit between the steps of a primary change.",
 CL,[("old primary is made super-read-only before a switchover is recorded","clustering/operations.go switchover"),("replica IO threads are stopped before a failover is recorded, so that the old primary cannot collect acks","clustering/operations.go failover"),("demoted instances get connections killed and super_read_only","clustering/operations.go configureReplica")])
p("C03","Instances with errant transactions are excluded from the cluster",
 "A replica that holds transactions the live primary never had is recorded in the status as errant, loses its role label and has its replication stopped, and while it is recorded as errant it is never promoted, never labelled with a role and never given replication again; the record is kept while the primary cannot be consulted. Transactions that originate from the current primary itself never make a replica errant.",
 ["histories","fault_sequences","schedules"],
 "all histories of errant transactions appearing on any set of replicas before, during or after the primary's failure, and of replicas running ahead of the gathered primary position",
 "Existing tests inject one errant replica in one order; they do not combine errant replicas with failover, stale records, or replicas that run ahead of the primary.",
 CL,[("GTID subtraction against the primary, ignoring the primary's UUID","clustering/status.go GatherStatus, containErrantTransactions"),("errant list kept in status when the primary is gone","clustering/status.go"),("errant replicas skipped in failover, labels and configuration","clustering/operations.go")])
p("C04","Services never route to a wrong or stale instance",
 "At most one pod carries the primary role label and it is put only on the recorded primary; the replica label is put only on non-primary, non-errant instances; no instance is made writable while another pod still carries the primary label. Before an instance whose role changed is labelled with its new role, all its client connections made through the old role have been killed, and connections of MOCO, of replication threads and from localhost are never killed.",
 ["schedules","histories","fault_sequences"],
 "all role changes under any interleaving of new client connections, failed Kubernetes requests and controller restarts",
 "Tests look at labels at the end of a scenario; transient double labels, surviving connections and killed system connections are invisible to the mocks.",
 ["clustering/operations.go","pkg/dbop/kill.go","pkg/constants/users.go"],[("removeRoleLabel / addRoleLabel around KillConnections","clustering/operations.go configure"),("user and host filter","pkg/dbop/kill.go")])
p("C05","The primary changes only when it must and may",
 "The recorded primary changes only by a switchover (its pod is terminating or marked for demotion, the cluster is available, the pod deletion is not being prevented) or by a failover (the primary is unreachable or lost its data while more than half of the replicas are running with data and without errant transactions). The new primary of a failover holds every transaction that any of the participating replicas has received, and a primary that stays unreachable under that condition is eventually replaced by a writable one once MOCO's requests succeed; in every other situation, in particular when half or more of the replicas are lost, the recorded primary and the data of all instances stay untouched.",
 ["inputs","schedules","fault_sequences"],
 "all combinations of instance availability, data, errant transactions and pod marks for cluster sizes 1, 3 and 5",
 "The state space is a product over instances; tests sample around a dozen points and only fixed ordinals.",
 CL+["pkg/dbop/gtid.go"],[("state machine Healthy/Degraded/Failed/Lost","clustering/status.go DecideState"),("FindTopRunner over the union of retrieved and executed sets","pkg/dbop/gtid.go")])
p("C06","The reported cluster state matches the documented definition",
 "For every combination of instance and pod conditions, the conditions Initialized, Available and Healthy with their reason, the synced replica count, and the errant replica list written to the status are those that the documented definitions of Healthy, Cloning, Restoring, Degraded, Failed, Lost, Incomplete and Offline give, and the exported availability metrics agree with them.",
 ["inputs","configurations"],
 "all combinations of per-instance reachability, read-only flags, replication source, data, errantness, pending semi-sync sessions, pod readiness, and of the cluster modes (normal, external source, restoring, offline)",
 "The unit tests of the classifier check about twenty hand-written snapshots of its internal structure.",
 ["clustering/status.go","clustering/process.go"],[("DecideState","clustering/status.go"),("updateStatus","clustering/process.go")])
p("C07","The cluster recovers to a fully configured state after faults",
 "Once all pods run and no instance has errant transactions or lost the majority's data, MOCO brings the cluster to Healthy within a bounded number of rounds: the primary is writable (or replicating from the external source), semi-sync is set to half of the replicas, every replica is super-read-only, replicates from the primary with the right credentials and semi-sync setting, and every pod carries its role label. This holds wherever the controller was interrupted and whatever single requests failed before.",
 ["crash_points","fault_sequences","histories"],
 "a controller crash or a failed request at every individual operation of bootstrap, switchover, failover, scale-out, clone and source detachment, followed by normal operation",
 "Tests never interrupt the controller in the middle of an operation; reaching every crash point needs systematic enumeration.",
 CL,[("level-triggered loop that recomputes the state","clustering/process.go"),("configure is idempotent","clustering/operations.go")])
p("C08","A requested switchover completes and leaves one writable primary",
 "When the primary pod of an available cluster is terminating or marked for demotion, and deletion is not being prevented, MOCO moves the primary role to the lowest-numbered healthy replica that has every transaction of the old primary, removes the demotion mark, and the old primary ends up read-only without client connections. If any step fails or the controller restarts in the middle, the request is retried or abandoned with the recorded primary still holding every committed transaction, and the demotion mark is removed only after the primary has changed.",
 ["crash_points","fault_sequences","schedules"],
 "every crash point and failing request during a switchover, with writes in flight and blocked by missing acknowledgements",
 "One happy-path switchover is tested, with no writes in flight.",
 ["clustering/operations.go","clustering/status.go"],[("switchover","clustering/operations.go"),("needSwitch, Candidates","clustering/status.go")])
p("C09","Replication delay blocks pod deletion and switchover",
 "If a delay limit is configured and any reachable replica lags behind the primary by more than it, the primary pod is marked as protected from deletion and no switchover is performed; once no replica exceeds the limit, or no limit is configured, no pod keeps that mark.",
 ["inputs","histories"],
 "all histories of per-replica delays around the limit, including unknown delays, primary changes while marked, and limits being removed",
 "One delay value on one replica is tested.",
 ["clustering/status.go","clustering/operations.go","clustering/process.go"],[("PreventPodDeletion","clustering/status.go"),("addAnnPreventDelete / removeAnnPreventDelete","clustering/operations.go")])
p("C10","External sources: data is cloned once, never overwritten, never writable",
 "MOCO requests a clone only for an instance that holds no data, from the external source only for the primary and only until the initial clone has completed, and otherwise only from the current primary. The primary of a cluster with an external source is never made writable; when the source is removed from the spec, the primary executes everything it had received before it becomes writable.",
 ["histories","crash_points","fault_sequences"],
 "all histories of clone failures, controller restarts, instance restarts, offline periods, failovers and source removal",
 "Tests run one successful clone; interrupted and repeated clones and the hand-over race are not reachable with the mock.",
 ["clustering/operations.go","clustering/status.go","clustering/process.go"],[("isCloning, status.cloned","clustering/status.go, clustering/process.go"),("configureIntermediatePrimary, configurePrimary, configureReplica","clustering/operations.go")])
p("C11","A replica is never attached across a gap in the binary logs",
 "MOCO starts replication of an instance from a primary only if the primary still has the binary logs of every transaction that the instance is missing; otherwise it leaves the replication configuration of that instance as it is.",
 ["histories","inputs"],
 "all combinations of purged, executed and received transactions on the primary and the replicas, including after clones, failovers and restarts",
 "No test purges binary logs.",
 ["clustering/operations.go"],[("purged-minus-executed check before changing the source","clustering/operations.go configureReplica")])
p("C12","MOCO keeps its hands off healthy, lost, restoring, offline and partial clusters",
 "While a cluster is Healthy without a switchover request, Lost, Restoring, Offline, or has missing pods, MOCO neither changes MySQL instances nor the recorded primary nor role labels (other than correcting a wrong role label or semi-sync setting in a Healthy cluster), keeps running, and resumes normal operation when the condition ends.",
 ["inputs","histories","fault_sequences"],
 "all cluster snapshots that fall in these states, and all orders of entering and leaving them",
 "Tests check that recovery does not happen in one Lost scenario; they do not look for stray statements, nor run the offline state with instances or pods in arbitrary conditions.",
 ["clustering/process.go","clustering/status.go"],[("state switch in the maintenance loop","clustering/process.go do")])
p("C13","Starting, pausing and stopping cluster maintenance is exact",
 "After stop or pause of a cluster's maintenance has taken effect, MOCO issues no operation for that cluster until it is started again; each managed cluster has at most one maintenance loop acting on it, operations on one cluster never touch another one, notifications never start an unmanaged cluster, and after shutdown nothing starts. Metrics of a stopped cluster disappear, of a paused cluster stay (with unknown health), and of a running cluster are present.",
 ["schedules","histories"],
 "all interleavings of start, notify, pause, stop and shutdown for several clusters with running maintenance rounds",
 "Tests start and stop one cluster at rest.",
 ["clustering/manager.go","clustering/process.go","controllers/pod_watcher.go"],[("process table under a mutex","clustering/manager.go"),("context cancellation","clustering/process.go")])
p("C14","Stop annotations really stop MOCO, and only what they name",
 "While the clustering-stopped annotation is set, maintenance of that cluster is paused and the status says clustering is inactive, while resources are still reconciled; while the reconciliation-stopped annotation is set, no resource of the cluster is created, changed or deleted and the status says so, while clustering continues. The metrics clustering_stopped and reconciliation_stopped agree with this, also after a restart of MOCO. Both resume when the annotation is removed, for any order and timing of annotation changes and failures.",
 ["histories","fault_sequences"],
 "all sequences of setting and removing either annotation, spec changes, failing requests, and reconciliations",
 "Tests set each annotation once and remove it once.",
 ["controllers/mysqlcluster_controller.go"],[("clusteringStopV1, reconciliation-stopped branch","controllers/mysqlcluster_controller.go")])
p("C15","Rolling updates take down one pod at a time and only in healthy clusters",
 "MOCO lowers the rollout partition of a StatefulSet of a MySQLCluster by exactly one at a time, and only when the MySQLCluster and the StatefulSet are fully processed (generations observed), all pods are present, every pod other than the next one to update is available with all its containers ready and not terminating, every pod at or above the partition is updated, and the MySQLCluster is Healthy (or the next pod to update is itself not ready); nothing needs to be awaited for a pod that is updated already or when all pods are updated. A rollout that satisfies this goes on until partition 0. StatefulSets of other owners, or with forced updates, are left alone, and a partition that was re-armed by a newer template meanwhile is not lowered.",
 ["histories","inputs","schedules"],
 "all combinations of partition, pod revision/readiness/phase, cluster health, rate limit and generation, and all sequences of them",
 "Tests follow one rollout of three pods; the gate is a conjunction over all pods.",
 ["controllers/partition_controller.go"],[("StatefulSetPartitionReconciler gates","controllers/partition_controller.go")])
p("C16","Every template change re-arms the rollout partition",
 "For every create or update of a StatefulSet whose owner is a MySQLCluster, other than an update that changes the partition alone or a creation with an explicit partition, the stored partition equals the number of replicas so that no pod is restarted yet; with the force-rolling-update annotation the partition is removed; a partition-only change and StatefulSets of other owners are stored unmodified.",
 ["inputs"],
 "all create and update requests over owners, annotations, replicas, strategies and changed fields",
 "Six example requests are tested.",
 ["api/v1beta2/statefulset_webhhok.go"],[("StatefulSet defaulter","api/v1beta2/statefulset_webhhok.go")])
p("C17","Reconciliation is a repeatable fixpoint that repairs drift",
 "For every accepted MySQLCluster (with its configuration objects present), repeated reconciliation reaches a state in which further reconciliation changes nothing, does not depend on the resources that happened to exist before or on which requests failed meanwhile, restores any managed field that was altered and any managed object that was deleted, and keeps the fields MOCO fixes (selectors, ports, mandatory containers and volumes) whatever the user templates say, while everything else in the user's pod, service and volume templates is carried over to the resources; a changed MySQL or log configuration gets a new name, so that the instances really get it, and the recent ones are kept for instances not updated yet.",
 ["configurations","histories","fault_sequences"],
 "all MySQLCluster specs within the generator, previous states of the resources (fresh, from an older spec, partially created, tampered with) and failures at every request",
 "Tests reconcile a few specs from an empty cluster; interrupted reconciliation and drift are not covered.",
 ["controllers/mysqlcluster_controller.go","controllers/mysql_container.go"],[("server-side apply with comparison","controllers/mysqlcluster_controller.go")])
p("C18","Clusters are isolated and deletion cleans up exactly their resources",
 "Reconciling or deleting one MySQLCluster never changes or deletes a resource belonging to another cluster or not created by MOCO, whatever the names of the clusters are. Deleting a MySQLCluster stops its maintenance and removes what MOCO created for it in the controller's own namespace before the object disappears, for any order of failures.",
 ["configurations","histories","crash_points"],
 "all pairs of clusters whose names or namespaces are prefixes of, or combine to, one another, with spec changes and deletions in any order, with failures at every request",
 "Tests use a single cluster name at a time.",
 ["controllers/mysqlcluster_controller.go","controllers/certificate.go"],[("finalizer","controllers/mysqlcluster_controller.go finalizeV1"),("names derived from namespace and name; ownership","controllers, api/v1beta2/mysqlcluster_types.go")])
p("C19","Volumes are only ever grown, and StatefulSets are replaced without touching pods",
 "MOCO never deletes a pod or a volume claim and never lowers the requested size of a volume claim; when a volume template is enlarged, the claims of the cluster that are smaller are enlarged to exactly the requested size and others are left alone; a change of templates replaces the StatefulSet with orphaned pods and the replacement carries the new templates. Labels and annotations are copied to claims only for the configured keys.",
 ["inputs","histories","fault_sequences"],
 "all current and requested sizes per volume and per instance, claims resized by others, missing claims, storage classes, and failures between the steps",
 "Tests check one claim and one size step.",
 ["controllers/pvc.go","controllers/mysqlcluster_controller.go"],[("reconcilePVC, needResizePVC","controllers/pvc.go"),("orphan deletion of the StatefulSet","controllers/mysqlcluster_controller.go")])
p("C20","Credentials are generated once and stay consistent",
 "The passwords of MOCO's MySQL users never change after they were first generated, whatever else than the controller's own secret is deleted, altered or interrupted afterwards, and the copy given to the cluster and the client configuration derived from it always converge to the generated values. Issued certificates are copied to the cluster's namespace completely and follow renewals.",
 ["histories","crash_points"],
 "all sequences of deletion or modification of the copies, of the cluster spec, certificate renewals and failures at every request",
 "One creation is tested.",
 ["controllers/mysqlcluster_controller.go","controllers/certificate.go","pkg/password/password.go"],[("controller secret is created once and is the source of the user secret","controllers/mysqlcluster_controller.go reconcileV1Secret")])
p("C21","Disruption budgets keep a semi-sync quorum and protect backups",
 "For every running cluster of 3 or more replicas there is a PodDisruptionBudget for exactly its pods that allows at most half (rounded down) of them to be unavailable, and none while a backup of the cluster is running; clusters of one replica and offline clusters have none. The budget follows every change of replicas, offline mode and backup activity.",
 ["histories","configurations"],
 "all sequences of replica counts, offline switches, backup policy and backup job activity",
 "Tests create one budget and toggle one backup job.",
 ["controllers/mysqlcluster_controller.go"],[("reconcileV1PDB","controllers/mysqlcluster_controller.go")])
p("C22","User configuration can never weaken the options MOCO relies on",
 "For every user-supplied mysqld configuration, with options spelled with dashes or underscores and with or without the prefix loose_, the generated my.cnf sets each option that MOCO requires to MOCO's value exactly once and never changes binary logging or the error log (log_bin, skip_log_bin, disable_log_bin, log_error), keeps every other user option with its value, and falls back to MOCO's defaults only for options the user did not set, the buffer pool being 70% of the memory of mysqld in whole MiB and at least 128 MiB. The opaque part given by _include is copied verbatim before the options. The file depends only on its inputs, so that equal inputs never cause a restart.",
 ["inputs"],
 "all user configurations over the option names MOCO knows and arbitrary others, spelled with dashes, underscores and the loose_ prefix, also several ways at once, single-line values, any memory size; not: options set in the opaque part, the skip_/disable_ prefixes and deprecated synonyms of mysqld",
 "Golden-file tests of a few configurations.",
 ["pkg/mycnf/generator.go"],[("normalisation and constant overrides","pkg/mycnf/generator.go")])
p("C23","A recorded backup is restorable and its binlog chain has no silent gap",
 "When moco-backup records a backup in the status of a cluster, the dump taken by this run is completely stored under that cluster's key for the recorded time, and the recorded transactions, instance, server UUIDs, binary log file and sizes are those of that dump. The dump is taken from a ready instance: the source of the previous backup if it has not been re-initialised since and is a replica, else a replica that has not been re-initialised, else the primary if it has not been, else any ready replica, else the primary. Binary logs are stored only next to the previous dump; unless they contain every transaction between that dump and the new one, the recorded status has a warning, and when complete logs were available and nothing failed they are stored without warning. A failed dump or upload, or the end of the run at any point, never advances the record and never replaces an earlier dump, and success is reported only for a recorded backup.",
 ["histories","fault_sequences","crash_points"],
 "all histories of backups with instances becoming unready, re-initialised or promoted, binary logs rotated and purged, failing dumps, uploads and status updates, and ends of the run at any operation",
 "Tests cover two successful backups and one binlog failure.",
 ["backup/backup.go","backup/key.go","pkg/bkop","pkg/bucket","cmd/moco-backup"],[("ChoosePod / GetUUIDSet","backup/backup.go"),("status updated last","backup/backup.go"),("DumpBinlog","pkg/bkop/backup.go")])
p("C24","Restore loads the right backup and finishes only when complete",
 "A restoration loads, into the first instance of the target cluster only, the most recent dump of the specified source cluster that is not later than the requested time, then applies in order the transactions of the binary logs stored with that dump (and of no other) that come before the requested time, restricted to the requested schema, and marks the cluster as restored only after all of it has succeeded and the instance is read-only with local_infile off again; if there is no suitable dump or a step fails, moco-backup reports failure and does not mark the cluster. Objects of other clusters and objects that are not backups are ignored. A restoration that can succeed and meets no failure does so.",
 ["inputs","histories","fault_sequences","crash_points"],
 "all sets of stored objects (including other clusters' and malformed keys), requested times, and failures at every step",
 "Tests restore one backup three ways.",
 ["backup/restore.go","backup/key.go","pkg/bkop","pkg/bucket","cmd/moco-backup"],[("FindNearestDump","backup/restore.go"),("step order in Restore","backup/restore.go")])
p("C25","Admission rejects changes that would endanger data",
 "Every accepted MySQLCluster has a name that fits, a positive odd number of replicas, a mysqld container and a data volume template, and no user container, init container, volume or port of mysqld with a name or number that MOCO reserves for itself, a storage request in every volume template, and valid schedules; every accepted update never decreases the replicas, never adds or changes an external source, never changes the restore specification, and enlarges volumes only if the storage class allows it. Specifications and updates that satisfy this are accepted.",
 ["inputs"],
 "all pairs of old and new specifications over the constrained fields",
 "Tests check one example per rule.",
 ["api/v1beta2/mysqlcluster_webhook.go","api/v1beta2/mysqlcluster_types.go"],[("validateCreate, validateUpdate","api/v1beta2/mysqlcluster_types.go")])
p("C26","Backup and restore jobs exist exactly when they should",
 "A cluster with a backup policy has a CronJob with that policy's schedule and job settings and the permissions it needs for that cluster's service account, and none of them without a policy; a cluster to be restored has a restore Job until the restoration is recorded, and never again afterwards; a policy that is in use cannot be deleted.",
 ["histories","configurations","fault_sequences"],
 "all sequences of setting, changing and removing policies, policy edits, restore completion, job deletion and failures",
 "Tests create one CronJob and one Job.",
 ["controllers/mysqlcluster_controller.go","api/v1beta2/backuppolicy_webhook.go"],[("reconcileV1BackupJob, reconcileV1RestoreJob","controllers/mysqlcluster_controller.go")])
p("C27","The conditions tell how reconciliation and rollout went",
 "After every reconciliation that could write the status, the condition ReconcileSuccess of the MySQLCluster is True exactly if that reconciliation finished without an error, and StatefulSetReady is True only if the StatefulSet exists, its latest specification has been observed, all of its instances are available, and its rolling update has completely finished; a reconciliation that meets no failure reports True whenever that is so. ReconciliationActive is True unless reconciliation is stopped.",
 ["histories","fault_sequences","crash_points"],
 "all histories of edits, rollouts, instances becoming unavailable, and failures at every request of a reconciliation",
 "Tests check the conditions after one undisturbed reconciliation.",
 ["controllers/mysqlcluster_controller.go"],[("updateStatus","controllers/mysqlcluster_controller.go")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
