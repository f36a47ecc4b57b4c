------------------------------ MODULE Operator ------------------------------
(* The resources MOCO keeps for MySQLClusters in Kubernetes: what a cluster *)
(* should have, and what MOCO may write.                                    *)
(*                                                                          *)
(* The state is a set of Kubernetes objects: a function from keys, which    *)
(* look like "Kind/namespace/name", to records of attributes.  The          *)
(* operators below are used by OperatorTrace, which validates what the real *)
(* controllers do, and, for the parts that matter there, by OperatorMC and  *)
(* RolloutMC, which explore abstract controllers exhaustively.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
If(c, p, m) == IF c THEN {<<p, m>>} ELSE {}

---------------------------------------------------------------------------
(* Decisions on plain values                                                *)

\* C21: the disruption budget of a cluster; -1: there must be none
BudgetOf(replicas, offline, backupRunning) ==
  IF offline \/ replicas < 3 THEN -1 ELSE IF backupRunning THEN 0 ELSE replicas \div 2

\* C19: the size a volume claim gets
SizeOf(cur, wanted, expandable) == IF expandable /\ cur < wanted THEN wanted ELSE cur

\* C16: the partition stored for a StatefulSet of a MySQLCluster; -1: none
PartitionOf(force, create, requested, old, sameSpec, replicas) ==
  CASE force -> -1
    [] requested = -1 -> replicas
    [] create -> requested
    [] requested # old /\ sameSpec -> requested
    [] OTHER -> replicas

\* C15: may the partition be lowered?  pods: ordinal -> [updated, ready, avail, ctrs, deleting]
PodSettled(p) == p.avail /\ p.ctrs /\ ~p.deleting
MayRoll(part, replicas, updatedReplicas, pods, healthy) ==
  /\ part > 0
  /\ \/ updatedReplicas = replicas
     \/ /\ DOMAIN pods = 0 .. (replicas - 1)
        /\ part <= replicas
        /\ \/ pods[part - 1].updated
           \/ /\ ~pods[part - 1].ready \/ healthy
              /\ \A i \in DOMAIN pods \ {part - 1} : PodSettled(pods[i]) /\ (i >= part => pods[i].updated)

---------------------------------------------------------------------------
(* Names                                                                    *)
Key(kind, ns, name) == kind \o "/" \o ns \o "/" \o name
P(c) == "moco-" \o c.name
InNS(kind, c, name) == Key(kind, c.ns, name)
KClu(c)  == InNS("MySQLCluster", c, c.name)
KCtrl(s, c) == Key("Secret", s, "mysql-" \o c.ns \o "." \o c.name)
KCert(s, c) == Key("Certificate", s, "moco-agent-" \o c.ns \o "." \o c.name)
KSrc(s, c)  == Key("Secret", s, "moco-agent-" \o c.ns \o "." \o c.name)
KUser(c) == InNS("Secret", c, P(c))
KCnf(c)  == InNS("Secret", c, "moco-my-cnf-" \o c.name)
KGrpc(c) == InNS("Secret", c, P(c) \o "-grpc")
KSA(c)   == InNS("ServiceAccount", c, P(c))
KHead(c) == InNS("Service", c, P(c))
KPrim(c) == InNS("Service", c, P(c) \o "-primary")
KRepl(c) == InNS("Service", c, P(c) \o "-replica")
KSts(c)  == InNS("StatefulSet", c, P(c))
KPdb(c)  == InNS("PodDisruptionBudget", c, P(c))
KCron(c) == InNS("CronJob", c, "moco-backup-" \o c.name)
KRole(c) == InNS("Role", c, "moco-backup-" \o c.name)
KRB(c)   == InNS("RoleBinding", c, "moco-backup-" \o c.name)
KJob(c)  == InNS("Job", c, "moco-restore-" \o c.name)
KRRole(c) == InNS("Role", c, "moco-restore-" \o c.name)
KRRB(c)   == InNS("RoleBinding", c, "moco-restore-" \o c.name)
CMPrefix(c) == P(c)
SlowPrefix(c) == "moco-slow-log-agent-config-" \o c.name

InSystem(s, c) == {KCtrl(s, c), KCert(s, c)}
Exact(s, c) == InSystem(s, c) \cup {KUser(c), KCnf(c), KGrpc(c), KSA(c), KHead(c), KPrim(c), KRepl(c), KSts(c), KPdb(c), KCron(c),
                                    KRole(c), KRB(c), KJob(c), KRRole(c), KRRB(c)}
\* The claims of a cluster: [key -> volume]
KPvc(c, v, i) == InNS("PersistentVolumeClaim", c, v \o "-" \o P(c) \o "-" \o ToString(i))
Claims(c, vols, n) == UNION {{<<KPvc(c, v, i), v>> : i \in 0 .. (n - 1)} : v \in DOMAIN vols}

Has(o, k) == k \in DOMAIN o
Labels(c) == c.name \o ",mysql,moco"
Wanted(c) == IF c.offline THEN 0 ELSE c.replicas
IsCluster(r) == r.kind = "MySQLCluster"
Alive(o, uid) == \E k \in DOMAIN o : IsCluster(o[k]) /\ o[k].uid = uid

---------------------------------------------------------------------------
(* What the objects of a reconciled cluster look like: the set of           *)
(* <<property, complaint>>.                                                 *)
Owned(o, c, k, p) == If(~Has(o, k), p, "missing: " \o k)
                     \cup (IF Has(o, k) THEN If(o[k].owner # c.uid, p, "not owned by the cluster: " \o k) ELSE {})
Both(o, c, k, p, Q(_), m) == Owned(o, c, k, p) \cup (IF Has(o, k) THEN If(~Q(o[k]), p, m \o ": " \o k) ELSE {})

Secrets(s, o, c) ==
  If(~Has(o, KCtrl(s, c)), "C20", "the passwords of the cluster are missing")
  \cup If(~Has(o, KCert(s, c)), "C17", "no certificate was requested")
  \cup (IF Has(o, KCert(s, c)) THEN If(o[KCert(s, c)].dns # "*." \o P(c) \o "." \o c.ns \o ".svc"
                                       \/ o[KCert(s, c)].secret # "moco-agent-" \o c.ns \o "." \o c.name, "C17", "the certificate is not for the cluster") ELSE {})
  \cup Owned(o, c, KUser(c), "C20") \cup Owned(o, c, KCnf(c), "C20")
  \cup (IF Has(o, KCtrl(s, c)) /\ Has(o, KUser(c)) THEN If(o[KUser(c)].pw # o[KCtrl(s, c)].pw, "C20", "the passwords given to the cluster differ from the generated ones") ELSE {})
  \cup (IF Has(o, KCtrl(s, c)) /\ Has(o, KCnf(c)) THEN If(o[KCnf(c)].cnf # o[KCtrl(s, c)].pw, "C20", "the client configuration does not have the generated passwords") ELSE {})
  \cup (IF Has(o, KSrc(s, c)) THEN Both(o, c, KGrpc(c), "C20", LAMBDA x : x.crt = o[KSrc(s, c)].crt, "the certificate was not copied as it is") ELSE {})

\* What the user asks for beside what MOCO fixes is compared as a digest (user, pod, meta, set).
SvcOK(x, c, role) == /\ x.inst = c.name /\ x.app = "mysql,moco" /\ x.role = role /\ x.nsel = (IF role = "" THEN 3 ELSE 4) /\ x.lbl = Labels(c)
                     /\ x.ports.mysql = 3306 /\ x.ports.mysqlx = 33060
Services(o, c) ==
  Both(o, c, KHead(c), "C17", LAMBDA x : SvcOK(x, c, "") /\ x.headless /\ x.notReady /\ x.ports.admin = 33062, "the headless service is wrong")
  \cup Both(o, c, KPrim(c), "C17", LAMBDA x : SvcOK(x, c, "primary") /\ ~x.headless /\ x.user = c.psvc /\ (c.ptype # "" => x.type = c.ptype), "the primary service is wrong")
  \cup Both(o, c, KRepl(c), "C17", LAMBDA x : SvcOK(x, c, "replica") /\ ~x.headless /\ x.user = c.rsvc /\ (c.rtype # "" => x.type = c.rtype), "the replica service is wrong")
  \cup Owned(o, c, KSA(c), "C17")

Containers(c) == {"mysqld", "agent"} \cup (IF c.slow THEN {"slow-log"} ELSE {}) \cup (IF c.exporter THEN {"mysqld-exporter"} ELSE {}) \cup Rng(c.extra)
Opt(flag, v) == IF v = "" THEN {} ELSE {flag \o "=" \o v}
AgentArgs(c) == Opt("--max-delay", c.delay) \cup Opt("--log-rotation-schedule", c.rot) \cup Opt("--log-rotation-size", c.rotSize)
                \cup (IF c.local THEN {"--mysqld-localhost=true"} ELSE {})
ExporterArgs(c) == {"--config.my-cnf=/mysql-credentials/moco-exporter-my.cnf"} \cup {"--collect." \o x : x \in Rng(c.coll)}
InitArgs(c, lower) == {"/shared/moco-init", "--data-dir=/var/lib/mysql", "--conf-dir=/etc/mysql-conf.d", "--init-timezones=" \o c.tz, c.idBase}
                      \cup (IF c.local THEN {"--mysqld-localhost=true"} ELSE {}) \cup Opt("--lower-case-table-names", lower)
Mounts(ctr, vs) == {ctr \o " mount " \o v : v \in vs}
\* What the containers made or completed by MOCO need.
Facts(c) ==
  {"volume " \o v : v \in {"tmp", "run", "var-log", "mysql-conf-d", "shared"}}
  \cup {"mysqld port " \o p : p \in {"mysql:3306", "mysqlx:33060", "mysql-admin:33062", "health:9081"}}
  \cup Mounts("mysqld", {"tmp:/tmp", "run:/run", "var-log:/var/log/mysql", "mysql-conf:/etc/mysql", "mysql-conf-d:/etc/mysql-conf.d",
                         "my-cnf-secret:/mysql-credentials", "mysql-data:/var/lib/mysql"})
  \cup {"mysqld startup health:/healthz", "mysqld liveness health:/healthz", "mysqld readiness health:/readyz", "mysqld stop sleep 20",
        "mysqld arg --defaults-file=/etc/mysql/my.cnf"}
  \cup {"agent secret " \o P(c), "agent env POD_NAME<metadata.name", "agent env CLUSTER_NAME=" \o c.name, "agent port agent:9080", "agent port agent-metrics:8080"}
  \cup Mounts("agent", {"run:/run", "var-log:/var/log/mysql", "grpc-cert:/grpc-cert"})
  \cup {"moco-init env POD_NAME<metadata.name", "moco-init image " \o c.img}
  \cup Mounts("moco-init", {"tmp:/tmp", "mysql-data:/var/lib/mysql", "mysql-conf-d:/etc/mysql-conf.d", "shared:/shared"})
  \cup Mounts("copy-moco-init", {"shared:/shared"})
  \cup (IF c.slow THEN Mounts("slow-log", {"slow-fluent-bit-config:/fluent-bit/etc", "var-log:/var/log/mysql"}) ELSE {})
  \cup (IF c.exporter THEN Mounts("mysqld-exporter", {"run:/run", "my-cnf-secret:/mysql-credentials"}) \cup {"mysqld-exporter port mysqld-metrics:9104"} ELSE {})
Lower(o, c) == LET u == InNS("ConfigMap", c, c.conf) IN IF c.conf # "" /\ Has(o, u) THEN o[u].lower ELSE ""
ContainersOK(o, c, x) ==
  /\ Facts(c) \subseteq Rng(x.facts)
  /\ Rng(x.args.agent) = AgentArgs(c) /\ Rng(x.args.init) = InitArgs(c, Lower(o, c))
  /\ c.exporter => Rng(x.args.exporter) = ExporterArgs(c)
  /\ \A n \in DOMAIN c.over : n \in DOMAIN x.res => x.res[n] = c.over[n]
\* 70% of the memory of mysqld in MiB, and at least 128 MiB
PoolOf(mem) == IF mem = 0 \/ (mem * 70) \div 100 < 128 THEN 128 ELSE (mem * 70) \div 100
ConfigOK(o, c, x) ==
  LET k == InNS("ConfigMap", c, x.cm) u == InNS("ConfigMap", c, c.conf) IN
  /\ Has(o, k) /\ o[k].owner = c.uid /\ o[k].pre = CMPrefix(c)
  /\ (c.conf # "" /\ Has(o, u)) => o[k].maxconn = o[u].opt
  /\ o[k].pool = PoolOf(c.mem)
SlowOK(o, c, x) ==
  LET k == InNS("ConfigMap", c, x.slowcm) IN
  IF c.slow THEN Has(o, k) /\ o[k].owner = c.uid /\ o[k].pre = SlowPrefix(c) /\ (c.slowTmpl # "" => o[k].slow = c.slowTmpl) ELSE x.slowcm = ""
StsSpec(c, x) ==
  /\ x.replicas = Wanted(c) /\ x.img = c.img /\ x.sa = P(c) /\ x.svc = P(c) /\ x.inst = c.name /\ x.lbl = Labels(c) /\ x.parallel
  /\ Rng(x.ctrs) = Containers(c) /\ Len(x.ctrs) = Cardinality(Containers(c))
  /\ Rng(x.inits) = {"moco-init", "copy-moco-init"} \cup Rng(c.inits)
  /\ x.cnf = "moco-my-cnf-" \o c.name /\ x.grpc = P(c) \o "-grpc"
  /\ (c.slow /\ c.slowCPU # "") => x.slowCPU = c.slowCPU
  /\ x.pod = c.pod /\ x.meta = c.meta
StsVols(c, x) == x.vols = c.vols /\ x.vl = c.vl /\ x.va = c.va /\ x.vc = c.vc
Workload(o, c) ==
  IF Has(o, KSts(c)) /\ o[KSts(c)].deleting THEN {}
  ELSE Both(o, c, KSts(c), "C17", LAMBDA x : StsSpec(c, x) /\ x.force = c.force, "the StatefulSet does not match the specification")
       \cup Both(o, c, KSts(c), "C19", LAMBDA x : StsVols(c, x), "the StatefulSet does not have the volume templates")
       \cup Both(o, c, KSts(c), "C17", LAMBDA x : ConfigOK(o, c, x), "the StatefulSet does not use the configuration")
       \cup Both(o, c, KSts(c), "C17", LAMBDA x : ContainersOK(o, c, x), "the containers of the StatefulSet are wrong")
       \cup Both(o, c, KSts(c), "C17", LAMBDA x : SlowOK(o, c, x), "the StatefulSet does not use the slow log configuration")

Running(o, c) == c.backup # "" /\ Has(o, KCron(c)) /\ o[KCron(c)].active
Budget(o, c) ==
  LET m == BudgetOf(c.replicas, c.offline, Running(o, c)) IN
  IF m = -1 THEN If(Has(o, KPdb(c)), "C21", "there is a disruption budget for a cluster that is offline or has one instance")
  ELSE Both(o, c, KPdb(c), "C21", LAMBDA x : x.max = m /\ x.lbl = Labels(c), "the disruption budget does not allow exactly " \o ToString(m))

Rights(c, pods, events) ==
  {"moco.cybozu.com/" \o r \o " " \o v \o " " \o c.name : r \in {"mysqlclusters", "mysqlclusters/status"}, v \in {"get", "update"}}
  \cup {"/pods " \o v : v \in pods} \cup {"/events " \o v : v \in events}
Backup(o, c) ==
  IF c.backup = ""
  THEN UNION {If(Has(o, k), "C26", "left without a backup policy: " \o k) : k \in {KCron(c), KRole(c), KRB(c)}}
  ELSE LET b == InNS("BackupPolicy", c, c.backup) IN
       IF ~Has(o, b) THEN {<<"C26", "the reconciliation succeeded without the backup policy">>}
       ELSE LET p == o[b] IN
            Both(o, c, KCron(c), "C26", LAMBDA x : /\ x.schedule = p.schedule /\ x.conc = p.conc /\ x.sa = p.sa
                                                   /\ x.args = <<"backup", p.bucket, c.ns, c.name>> /\ Rng(x.flags) = Rng(p.flags)
                                                   /\ x.set = p.set /\ (p.aff # "" => x.aff = p.aff) /\ x.restart = "Never"
                                                   /\ x.secret = P(c) \o "/BACKUP_PASSWORD", "the CronJob does not follow the policy")
            \cup Both(o, c, KRole(c), "C26", LAMBDA x : x.cluster = c.name /\ Rights(c, {"get", "list", "watch"}, {"create", "update", "patch"}) \subseteq Rng(x.may), "the Role is wrong")
            \cup Both(o, c, KRB(c), "C26", LAMBDA x : x.role = "moco-backup-" \o c.name /\ x.sa = c.ns \o "/" \o p.sa, "the RoleBinding is wrong")
Restore(o, c) ==
  IF ~c.restore \/ c.restored THEN {}
  \* a job of an earlier cluster of the same name is about to be collected
  ELSE IF Has(o, KJob(c)) /\ ~Alive(o, o[KJob(c)].owner) THEN {}
  ELSE Both(o, c, KJob(c), "C26", LAMBDA x : /\ x.sa = c.rspec.sa /\ x.secret = P(c) \o "/ADMIN_PASSWORD"
                                             /\ x.args = <<"restore", c.rspec.bucket>> \o c.rspec.src \o <<c.ns, c.name, c.rspec.point, c.rspec.schema, c.rspec.users>>
                                             /\ Rng(x.flags) = Rng(c.rspec.flags) /\ x.set = c.rspec.set /\ x.restart = "Never" /\ x.backoff = "0",
            "the restore job is wrong")
       \cup Both(o, c, KRRole(c), "C26", LAMBDA x : x.cluster = c.name /\ Rights(c, {"get"}, {"create"}) \subseteq Rng(x.may), "the Role for restoration is wrong")
       \cup Both(o, c, KRRB(c), "C26", LAMBDA x : x.role = "moco-restore-" \o c.name /\ x.sa = c.ns \o "/" \o c.rspec.sa, "the RoleBinding for restoration is wrong")

\* Complaints about a cluster that has just been reconciled successfully.
Complaints(s, o, c) == Secrets(s, o, c) \cup Services(o, c) \cup Workload(o, c) \cup Budget(o, c) \cup Backup(o, c) \cup Restore(o, c)
  \cup If(c.recGen # c.gen, "C17", "the generation was not recorded as reconciled")
  \cup If(c.cond.ReconcileSuccess # "True" \/ c.cond.ReconciliationActive # "True", "C17", "the conditions do not tell the success")

---------------------------------------------------------------------------
(* What MOCO may write while it reconciles a cluster.                       *)
(* cs: the versions of the MySQLCluster it may have read (not empty);       *)
(* old: the object before, or NoObj; n: the object afterwards, or NoObj.    *)
NoObj == [gone |-> TRUE]
Live(x) == ~x.gone
SomeC(cs, Q(_)) == \E c \in cs : Q(c)

IsMine(s, c, k, old, n) ==
  \/ k \in Exact(s, c)
  \/ /\ \/ Live(old) /\ old.kind = "ConfigMap" /\ old.pre \in {CMPrefix(c), SlowPrefix(c)} /\ old.owner = c.uid
        \/ ~Live(old) /\ Live(n) /\ n.kind = "ConfigMap" /\ n.pre \in {CMPrefix(c), SlowPrefix(c)}
        \* the current ConfigMap may have been tampered with
        \/ Live(old) /\ Live(n) /\ n.kind = "ConfigMap" /\ n.pre \in {CMPrefix(c), SlowPrefix(c)} /\ n.owner = c.uid
     /\ (Live(n) => n.ns = c.ns) /\ (Live(old) => old.ns = c.ns)

ClaimWrite(o, c, k, old, n) ==
  LET vs == {x[2] : x \in {y \in Claims(c, c.vols, 9) : y[1] = k}} IN
  CASE ~Live(n) -> {<<"C19", "a volume claim was deleted">>}
    [] ~Live(old) -> {<<"C19", "a volume claim was created">>}
    [] vs = {} \/ old.lbl # Labels(c) -> {<<"C18", "a volume claim of something else was changed: " \o k>>}
    [] OTHER -> LET v == CHOOSE v \in vs : TRUE IN
         If(n.size < old.size, "C19", "the requested size of a volume claim was lowered")
         \cup If(n.size > old.size /\ n.size # c.vols[v], "C19", "a volume claim was resized to something that is not requested")
         \cup If(n.fp # old.fp, "C19", "something else than the size and the synchronised keys of a volume claim was changed")
         \cup If((n.l # old.l /\ n.l # c.vl[v]) \/ (n.a # old.a /\ n.a # c.va[v]), "C19", "a volume claim got a label or annotation that is not in the template")

Write(s, o, c, mgr, k, op, old, n) ==
  LET made == ~Live(old) /\ Live(n)
      del == Live(old) /\ (~Live(n) \/ op \in {"delete", "orphan"}) IN
  IF k = KClu(c)
  THEN IF op = "status" THEN If(Live(n) /\ Live(old) /\ n.fp # old.fp, "C17", "the specification was changed")
       ELSE If(~c.deleting, "C17", "the MySQLCluster was changed")
            \cup If(KCtrl(s, c) \in DOMAIN o \/ KCert(s, c) \in DOMAIN o, "C18", "the cluster was released before its resources in the system namespace were removed")
            \cup If(mgr # "stop", "C18", "the cluster was released before its maintenance was stopped")
            \cup If(Live(n) /\ Live(old) /\ n.fp # old.fp, "C17", "the specification was changed")
  ELSE IF c.deleting
  THEN If(k \notin InSystem(s, c) \/ ~del, "C18", "something else than the resources in the system namespace was changed on deletion: " \o k)
  ELSE IF c.recStop
  THEN {<<"C14", "reconciliation is stopped, but this was changed: " \o k>>}
  ELSE LET some == IF Live(n) THEN n ELSE old IN
       IF some.kind = "PersistentVolumeClaim" THEN ClaimWrite(o, c, k, old, n)
       ELSE IF ~IsMine(s, c, k, old, n) THEN {<<"C18", "something that does not belong to the cluster was changed: " \o k>>}
       ELSE If(Live(old) /\ old.owner \notin {"", c.uid} /\ Alive(o, old.owner), "C18", "a resource of another cluster was changed: " \o k)
            \cup If(Live(n) /\ ~del /\ some.ns # s /\ n.owner # c.uid, "C18", "a resource without a reference to the cluster was stored: " \o k)
            \cup (IF del
                  THEN CASE k \in InSystem(s, c) -> {<<"C20", "the passwords or the certificate were removed from an existing cluster">>}
                         [] k = KSts(c) -> If(op # "orphan", "C19", "the StatefulSet was deleted together with its pods")
                                           \cup If(StsVols(c, old) /\ old.owner = c.uid, "C19", "the StatefulSet was replaced without need")
                         [] k = KPdb(c) -> If(BudgetOf(c.replicas, c.offline, FALSE) # -1, "C21", "the disruption budget was removed")
                         [] k \in {KCron(c), KRole(c), KRB(c)} -> If(c.backup # "", "C26", "removed despite the backup policy: " \o k)
                         [] some.kind = "ConfigMap" -> {}
                         [] OTHER -> {<<"C18", "a resource of the cluster was deleted: " \o k>>}
                  ELSE (IF k = KCtrl(s, c) THEN If(Live(old) /\ n.pw # old.pw, "C20", "generated passwords were changed")
                                               \cup If(n.pw = "broken" \/ \E j \in DOMAIN o : j # k /\ o[j].kind = "Secret" /\ o[j].ns = s /\ o[j].pw = n.pw,
                                                       "C20", "passwords are incomplete or not new") ELSE {})
                       \cup (IF k = KUser(c) THEN If(~Has(o, KCtrl(s, c)) \/ n.pw # o[KCtrl(s, c)].pw, "C20", "other passwords than the generated ones were given to the cluster") ELSE {})
                       \cup (IF k = KCnf(c) THEN If(~Has(o, KCtrl(s, c)) \/ n.cnf # o[KCtrl(s, c)].pw, "C20", "the client configuration got other passwords than the generated ones") ELSE {})
                       \cup (IF k = KPdb(c) THEN If(n.max > BudgetOf(c.replicas, c.offline, FALSE), "C21", "the disruption budget allows more than half of the instances to be unavailable") ELSE {})
                       \cup (IF k = KJob(c) THEN If(made /\ (~c.restore \/ c.restored), "C26", "a restore job was created though nothing is to be restored") ELSE {})
                       \cup (IF k \in {KCron(c), KRole(c), KRB(c)} THEN If(c.backup = "", "C26", "created without a backup policy: " \o k) ELSE {}))

\* MOCO may have read any of the versions of the cluster: the write must be right for one of them.
WriteAny(s, o, cs, mgr, k, op, old, n) ==
  IF cs = {} THEN {<<"C18", "something was changed for a cluster that does not exist: " \o k>>}
  ELSE IF \E c \in cs : Write(s, o, c, mgr, k, op, old, n) = {} THEN {}
  ELSE LET c == CHOOSE c \in cs : TRUE IN Write(s, o, c, mgr, k, op, old, n)

---------------------------------------------------------------------------
(* The rollout                                                              *)
PodsOf(o, s, t) ==
  LET ks == {k \in DOMAIN o : o[k].kind = "Pod" /\ o[k].ns = s.ns /\ o[k].lbl = s.lbl} IN
  [i \in {o[k].ord : k \in ks} |->
     LET p == o[CHOOSE k \in ks : o[k].ord = i] IN
     [updated |-> p.rev = s.rev, ready |-> p.ready, avail |-> p.ready /\ p.readyAt + 5 <= t, ctrs |-> p.ctrs, deleting |-> p.deleting]]
Waiting(o, s) == LET c == o[s.cluster] IN c.gen # c.recGen \/ s.gen # s.obs
Rollable(o, s, t) == /\ s.cluster # "" /\ Has(o, s.cluster) /\ ~s.force /\ ~Waiting(o, s)
                     /\ MayRoll(s.part, s.replicas, s.updated, PodsOf(o, s, t), o[s.cluster].cond.Healthy = "True")
\* Whatever was changed by others meanwhile, instances above the partition stay updated unless the template was changed.
RollsOld(s, pods) == /\ s.updated # s.replicas /\ ~(s.part - 1 \in DOMAIN pods /\ pods[s.part - 1].updated)
                     /\ \E i \in DOMAIN pods : i >= s.part /\ ~pods[i].updated
\* dirty: something else was changed by others meanwhile
PartWrite(o, k, op, old, n, t, dirty) ==
  IF ~Live(old) \/ ~Live(n) \/ op \in {"delete", "orphan"} \/ old.kind # "StatefulSet" THEN {<<"C15", "the partition controller changed something else: " \o k>>}
  ELSE If(old.cluster = "", "C15", "the partition of a StatefulSet that does not belong to a MySQLCluster was changed")
       \cup If(n.fp # old.fp, "C15", "the partition controller changed more than the partition")
       \cup If(n.part # old.part - 1, "C15", "the partition went from " \o ToString(old.part) \o " to " \o ToString(n.part))
       \cup If(old.force \/ old.gen # old.obs, "C15", "the partition was lowered though the StatefulSet is forced or not up to date")
       \cup If(old.cluster # "" /\ RollsOld(old, PodsOf(o, old, t)), "C15", "the partition was lowered though an instance above it is not updated")
       \cup If(~dirty /\ old.cluster # "" /\ ~Rollable(o, old, t), "C15", "the partition was lowered though the cluster is not ready for it")

\* C16
Rearm(old, n) == If(/\ Live(n) /\ n.kind = "StatefulSet" /\ n.cluster # "" /\ n.owners = 1
                    /\ (IF n.force THEN n.part # -1 ELSE (~Live(old) \/ n.fp # old.fp) /\ n.part # n.replicas),
                    "C16", "the rollout partition was not re-armed")
=============================================================================
