------------------------------ MODULE MyCnfMC ------------------------------
(* How the file comes about: the options of the user replace the defaults  *)
(* one by one, the banned ones are removed, MOCO's own replace the rest.   *)
(* Two generations run side by side to see that they agree.                *)
EXTENDS MyCnf

CONSTANTS Sorted,      \* the options are taken in a fixed order
          AllSpellings, \* all spellings of banned options are removed
          MaxUser       \* size of the user's configuration

Names == <<"foo", "gtid_mode", "log_bin", "tmpdir", "innodb_buffer_pool_size">>
Keys == {[b |-> Names[i], loose |-> lo, n |-> i * 4 + (IF lo THEN 2 ELSE 0) + (IF d THEN 1 ELSE 0), dash |-> d] : i \in 1..Len(Names), lo \in BOOLEAN, d \in BOOLEAN}
Confs == {f \in UNION {[K -> {"u", "w"}] : K \in {S \in SUBSET Keys : Cardinality(S) <= MaxUser}} : TRUE}
Defaults == {L("tmpdir", FALSE, "/tmp"), L("numa", TRUE, "ON")}
Pool == "128"

VARIABLES user, left, conf, file
vars == <<user, left, conf, file>>

Gens == {1, 2}
(* a section in the making: a set of lines, one per (option, looseness)    *)
Put(c, x) == {y \in c : y.b # x.b} \cup {x}
Init == /\ user \in Confs /\ left = [g \in Gens |-> DOMAIN user] /\ conf = [g \in Gens |-> Defaults] /\ file = [g \in Gens |-> <<>>]
Take(g) ==
  \E k \in left[g] :
    /\ Sorted => \A j \in left[g] : k.n <= j.n
    /\ left' = [left EXCEPT ![g] = @ \ {k}]
    /\ conf' = [conf EXCEPT ![g] = Put(@, L(k.b, k.loose, user[k]))]
    /\ UNCHANGED <<user, file>>
\* the order of the lines is that of their names
Alphabet == <<"admin_port", "binlog_format", "datadir", "enforce_gtid_consistency", "foo", "gtid_mode", "innodb_buffer_pool_size", "log_bin", "log_replica_updates", "loose_foo", "loose_gtid_mode", "loose_innodb_buffer_pool_size", "loose_log_bin", "loose_numa", "loose_replication_optimize_for_static_plugin_config", "loose_replication_sender_observe_commit_only", "loose_tmpdir", "mysqlx_port", "pid_file", "port", "read_only", "relay_log_recovery", "secure_file_priv", "skip_name_resolve", "skip_replica_start", "slow_query_log_file", "socket", "super_read_only", "tmpdir">>
Rank == [n \in {Alphabet[i] : i \in 1..Len(Alphabet)} |-> CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = n]
Before(x, y) == LET key(z) == (IF z.loose THEN "loose_" ELSE "") \o z.b IN Rank[key(x)] < Rank[key(y)]
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<x>> \o Sort(S \ {x})
Write(g) ==
  /\ left[g] = {} /\ file[g] = <<>>
  /\ LET c0 == IF \E x \in conf[g] : x.b = PoolOption /\ ~x.loose THEN conf[g] ELSE conf[g] \cup {L(PoolOption, FALSE, Pool)}
         c1 == {x \in c0 : x.b \notin Banned \/ (x.loose /\ ~AllSpellings)}
         c2 == {x \in c1 : x.b \notin {r.b : r \in Required.mysqld}} \cup Required.mysqld
     IN file' = [file EXCEPT ![g] = Sort(c2)]
  /\ UNCHANGED <<user, left, conf>>
Next == \E g \in Gens : Take(g) \/ Write(g)
Spec == Init /\ [][Next]_vars

Lined(u) == {L(k.b, k.loose, u[k]) : k \in DOMAIN u}
Right == \A g \in Gens : file[g] # <<>> => MysqldFaults(Lined(user), Defaults, Pool, file[g]) = {}
Same == (file[1] # <<>> /\ file[2] # <<>>) => file[1] = file[2]
=============================================================================
