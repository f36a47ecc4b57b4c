----------------------------- MODULE Admission -----------------------------
(* What the admission webhooks of MOCO let through, and what they store.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
If(c, p, m) == IF c THEN {<<p, m>>} ELSE {}

---------------------------------------------------------------------------
(* StatefulSets (C16)                                                       *)
(* A request: [create, owners: sequence of [kind, api], force, req, old,    *)
(* spec, oldSpec, replicas]; req and old are partitions, -1 if there is     *)
(* none; spec and oldSpec are everything else of the specification.         *)
OfMOCO(o) == o.kind = "MySQLCluster" /\ o.api = "moco.cybozu.com/v1beta2"
Governed(r) == Len(r.owners) = 1 /\ OfMOCO(r.owners[1])
Zero(p) == IF p = -1 THEN 0 ELSE p \* no partition is the same as zero
PartitionOf(r) ==
  CASE ~Governed(r) -> r.req
    [] r.force = "true" -> -1
    [] r.req = -1 -> r.replicas
    [] r.create -> r.req
    [] r.req # Zero(r.old) /\ r.spec = r.oldSpec -> r.req
    [] OTHER -> r.replicas

---------------------------------------------------------------------------
(* MySQLClusters (C25)                                                      *)
(* A specification: [replicas, base, cron, rotate, src, restore, vcts:      *)
(* sequence of [name, size, class], ctrs: sequence of [name, ports:         *)
(* sequence of [num, name]], inits, vols, noslow, collectors].              *)
(* size 0: there is no storage request; class "": the default class.        *)
GoodCrons == {"", "0 * * * *", "*/5 * * * *", "@daily", "@every 1h", "1,2 3-4 * 5 6"}
OddPositive(n) == n > 0 /\ n % 2 = 1
ReservedContainers(s) == {"agent"} \cup (IF s.noslow THEN {} ELSE {"slow-log"}) \cup (IF s.collectors THEN {"mysqld-exporter"} ELSE {})
ReservedPorts == {3306, 33060, 33062, 9081}
ReservedPortNames == {"mysql", "mysqlx", "mysql-admin", "health"}
ReservedInits == {"moco-init", "copy-moco-init"}
ReservedVolumes == {"tmp", "run", "var-log", "mysql-conf", "mysql-conf-d", "my-cnf-secret", "slow-fluent-bit-config", "grpc-cert", "shared"}

SpecErrors(s) ==
  {e \in {"data", "storage", "base", "cron", "rotate", "replicas", "container", "mysqld", "port", "init", "volume"} :
     CASE e = "data" -> "mysql-data" \notin {v.name : v \in Rng(s.vcts)}
       [] e = "storage" -> \E v \in Rng(s.vcts) : v.size = 0
       [] e = "base" -> s.base <= 0
       [] e = "cron" -> s.cron \notin GoodCrons
       [] e = "rotate" -> s.rotate < 0
       [] e = "replicas" -> ~OddPositive(s.replicas)
       [] e = "container" -> \E c \in Rng(s.ctrs) : c.name \in ReservedContainers(s) \cup {""}
       [] e = "mysqld" -> "mysqld" \notin {c.name : c \in Rng(s.ctrs)}
       [] e = "port" -> \E c \in Rng(s.ctrs) : c.name = "mysqld" /\ \E p \in Rng(c.ports) : p.num \in ReservedPorts \/ p.name \in ReservedPortNames
       [] e = "init" -> \E i \in Rng(s.inits) : i \in ReservedInits \cup {""}
       [] e = "volume" -> \E v \in Rng(s.vols) : v \in ReservedVolumes}

\* classes: name -> [expand, default]; down: the classes cannot be read
Expandable(classes, down, c) ==
  ~down /\ (IF c # "" THEN c \in DOMAIN classes /\ classes[c].expand
            ELSE \E d \in DOMAIN classes : classes[d].default /\ classes[d].expand)
Enlarged(old, new) == {v \in Rng(new.vcts) : \E o \in Rng(old.vcts) : o.name = v.name /\ v.size > o.size}
ChangeErrors(old, new, classes, down) ==
  {e \in {"shrink", "source", "restore", "expand"} :
     CASE e = "shrink" -> new.replicas < old.replicas
       [] e = "source" -> new.src # "" /\ new.src # old.src
       [] e = "restore" -> new.restore # old.restore
       [] e = "expand" -> \E v \in Enlarged(old, new) : ~Expandable(classes, down, v.class)}
CreateErrors(len, s) == SpecErrors(s) \cup (IF len > 40 THEN {"name"} ELSE {})
UpdateErrors(old, new, classes, down) == SpecErrors(new) \cup ChangeErrors(old, new, classes, down)
=============================================================================
