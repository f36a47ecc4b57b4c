------------------------------- MODULE MyCnf -------------------------------
(* The configuration file of mysqld that MOCO generates from the defaults   *)
(* of MOCO, the configuration of the user, and the options MOCO insists on. *)
(*                                                                          *)
(* A line is [b |-> option, loose |-> BOOLEAN, v |-> value]: b is the name  *)
(* as mysqld understands it, that is, with underscores and without the      *)
(* prefix loose_.  A file is a sequence of lines per section; mysqld takes  *)
(* the last line of an option.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, p, t) == IF c THEN {<<p, t>>} ELSE {}
L(b, loose, v) == [b |-> b, loose |-> loose, v |-> v]

(* Options MOCO relies on.                                                  *)
Required == [
  mysqld |-> {
    L("port", FALSE, "3306"), L("socket", FALSE, "/run/mysqld.sock"), L("datadir", FALSE, "/var/lib/mysql/data"),
    L("secure_file_priv", FALSE, "NULL"), L("skip_name_resolve", FALSE, "ON"), L("slow_query_log_file", FALSE, "/var/log/mysql/mysql.slow"),
    L("enforce_gtid_consistency", FALSE, "ON"), L("gtid_mode", FALSE, "ON"), L("binlog_format", FALSE, "ROW"),
    L("log_replica_updates", FALSE, "ON"), L("relay_log_recovery", FALSE, "OFF"), L("mysqlx_port", FALSE, "33060"),
    L("admin_port", FALSE, "33062"), L("pid_file", FALSE, "/run/mysqld.pid"), L("read_only", FALSE, "ON"),
    L("super_read_only", FALSE, "ON"), L("skip_replica_start", FALSE, "ON"),
    L("replication_optimize_for_static_plugin_config", TRUE, "ON"), L("replication_sender_observe_commit_only", TRUE, "OFF")},
  client |-> {L("port", FALSE, "3306"), L("socket", FALSE, "/run/mysqld.sock"), L("default_character_set", TRUE, "utf8mb4")},
  mysql |-> {L("auto_rehash", FALSE, "OFF"), L("init_command", FALSE, "\"SET autocommit=0\"")}]

(* Options the user cannot set: the binary log must stay on and the error   *)
(* log must go to the standard error.                                       *)
Banned == {"log_bin", "skip_log_bin", "disable_log_bin", "log_error"}

Options(f) == {f[i].b : i \in 1..Len(f)}
Lines(f, b) == {i \in 1..Len(f) : f[i].b = b}
Effective(f, b) == f[CHOOSE i \in Lines(f, b) : \A j \in Lines(f, b) : j <= i]
Position(f, b) == CHOOSE i \in Lines(f, b) : TRUE

(* user: the set of lines of the user (an option may be spelled in several  *)
(* ways); defaults: MOCO's own; pool: the default buffer pool in bytes.     *)
Chosen(user, b) == {u \in user : u.b = b}
PoolOption == "innodb_buffer_pool_size"
Allowed(user, defaults, pool, b) ==
  CASE b \in {r.b : r \in Required.mysqld} -> {r \in Required.mysqld : r.b = b}
    [] b \in Banned -> {}
    [] Chosen(user, b) # {} -> Chosen(user, b)
    [] b = PoolOption -> {L(b, FALSE, pool)}
    [] OTHER -> {d \in defaults : d.b = b}

SectionFaults(s, f) ==
  UNION {If(Cardinality(Lines(f, r.b)) # 1, "C22", "the option " \o r.b \o " of [" \o s \o "] does not appear exactly once") : r \in Required[s]}
  \cup UNION {If(Lines(f, r.b) # {} /\ Effective(f, r.b) # r, "C22", "the option " \o r.b \o " of [" \o s \o "] is not the one MOCO relies on") : r \in Required[s]}

MysqldFaults(user, defaults, pool, f) ==
  SectionFaults("mysqld", f)
  \cup UNION {If(b \in Banned, "C22", "the option " \o b \o " is left in the file") : b \in Options(f)}
  \cup UNION {LET a == Allowed(user, defaults, pool, b) IN
              If(b \notin Banned /\ a = {}, "C22", "the option " \o b \o " comes from nowhere")
              \cup If(b \notin Banned /\ a # {} /\ Effective(f, b) \notin a, "C22", "the value of the option " \o b \o " is wrong") : b \in Options(f)}
  \cup UNION {If(u.b \notin Options(f) /\ u.b \notin Banned, "C22", "the option " \o u.b \o " of the user was lost") : u \in user}
  \cup UNION {If(d.b \notin Options(f), "C22", "the default of the option " \o d.b \o " was lost") : d \in defaults}
  \cup If(PoolOption \notin Options(f), "C22", "the size of the buffer pool is not set")
  \cup If({"enforce_gtid_consistency", "gtid_mode"} \subseteq Options(f) /\ Position(f, "enforce_gtid_consistency") > Position(f, "gtid_mode"),
          "C22", "gtid_mode precedes enforce_gtid_consistency")

OtherSection(s, f) ==
  SectionFaults(s, f) \cup If(Options(f) # {r.b : r \in Required[s]}, "C22", "[" \o s \o "] has options of others")

(* 70 % of the memory in whole MiB, at least 128 MiB.  mem in MiB is exact  *)
(* enough: rounding bytes down at different points makes a difference of   *)
(* at most one MiB.                                                         *)
PoolOK(mem, pool) == \E d \in {-1, 0, 1} : pool = LET p == (mem * 7) \div 10 - d IN IF p < 128 THEN 128 ELSE p
=============================================================================
