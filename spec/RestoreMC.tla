----------------------------- MODULE RestoreMC -----------------------------
(* A restoration: any set of stored objects (of the source and of another  *)
(* cluster, dumps without binary logs and the reverse, incomplete ones),   *)
(* any point, and failures and ends of the run at every step; bad          *)
(* connections are tried again up to Tries times.                          *)
EXTENDS Backup

CONSTANTS Times, MaxPoint, Tries,
          SameDir,     \* only the binary logs next to the dump are applied
          NotLater,    \* dumps after the point are left out
          MarkLast,    \* the cluster is marked after everything has succeeded
          GiveUpError  \* giving up is reported as a failure

VARIABLES objs, point, pc, tries, data, sro, infile, marked, rc, d, b
vars == <<objs, point, pc, tries, data, sro, infile, marked, rc, d, b>>

None == [n |-> 0]
Txn(t) == [id |-> t * 10, ts |-> t, db |-> "d"]
(* transactions at every half: the binary logs of the dump of time t have  *)
(* those at t and t+1 that come after the dump                             *)
Dump(c, t, ok) == [ns |-> "ns", c |-> c, t |-> t, kind |-> "dump", complete |-> ok, n |-> t, txns |-> [k \in 1..(t - 1) |-> k * 10], bt |-> <<>>]
Log(c, t, ok) == [ns |-> "ns", c |-> c, t |-> t, kind |-> "binlog", complete |-> ok, n |-> 0, txns |-> <<t * 10, t * 10 + 10>>, bt |-> <<Txn(t), Txn(t + 1)>>]
At(c, t) == {<<>>} \cup {<<Dump(c, t, ok)>> : ok \in BOOLEAN} \cup {<<Log(c, t, TRUE)>>} \cup {<<Dump(c, t, ok), Log(c, t, ok2)>> : ok \in BOOLEAN, ok2 \in BOOLEAN}
RECURSIVE Worlds(_)
Worlds(T) == IF T = {} THEN {{}} ELSE LET t == CHOOSE t \in T : TRUE IN {v \cup Range(x) : v \in Worlds(T \ {t}), x \in At("c", t)}
Init == /\ objs \in {v \cup o : v \in Worlds(Times), o \in {{}, {Dump("other", 2, TRUE), Log("other", 2, TRUE)}}}
        /\ point \in 1..MaxPoint
        /\ pc = "start" /\ tries = 1 /\ data = {} /\ sro = TRUE /\ infile = FALSE /\ marked = FALSE /\ rc = -1 /\ d = None /\ b = None

Fail == pc' = "end" /\ rc' = 1
Bad == IF tries < Tries THEN pc' = "start" /\ tries' = tries + 1 /\ rc' = rc
       ELSE pc' = "end" /\ rc' = (IF GiveUpError THEN 1 ELSE 0) /\ tries' = tries
Mine == {o \in objs : o.c = "c" /\ (NotLater => o.t <= point)}
Choose ==
  /\ pc = "start"
  /\ LET ds == {o \in Mine : o.kind = "dump"} bs == {o \in Mine : o.kind = "binlog"} IN
     IF ds = {} THEN Fail /\ UNCHANGED <<d, b>>
     ELSE LET x == Latest(ds)
              ls == IF SameDir THEN {o \in bs : o.t = x.t} ELSE {o \in bs : o.t >= x.t}
          IN /\ d' = x /\ b' = IF ls = {} THEN None ELSE Latest(ls)
             /\ pc' = "prepare" /\ rc' = rc
  /\ UNCHANGED <<objs, point, tries, data, sro, infile, marked>>
Prepare ==
  /\ pc = "prepare" /\ pc' = "load" /\ sro' = FALSE /\ infile' = TRUE
  /\ UNCHANGED <<objs, point, tries, data, marked, rc, d, b>>
Load ==
  /\ pc = "load"
  /\ IF d.complete THEN data' = Range(d.txns) /\ pc' = (IF MarkLast THEN "apply" ELSE "markEarly") /\ rc' = rc
     ELSE Fail /\ data' = data
  /\ UNCHANGED <<objs, point, tries, sro, infile, marked, d, b>>
MarkEarly == pc = "markEarly" /\ pc' = "apply" /\ marked' = TRUE /\ UNCHANGED <<objs, point, tries, data, sro, infile, rc, d, b>>
Apply ==
  /\ pc = "apply"
  /\ IF b = None \/ d.t = point THEN pc' = "finish" /\ UNCHANGED <<data, rc>>
     ELSE IF b.complete THEN data' = data \cup Wanted(b, point, "") /\ pc' = "finish" /\ rc' = rc
     ELSE Fail /\ data' = data
  /\ UNCHANGED <<objs, point, tries, sro, infile, marked, d, b>>
Finish ==
  /\ pc = "finish" /\ sro' = TRUE /\ infile' = FALSE /\ pc' = "mark"
  /\ UNCHANGED <<objs, point, tries, data, marked, rc, d, b>>
Mark ==
  /\ pc = "mark" /\ marked' = TRUE /\ pc' = "end" /\ rc' = 0
  /\ UNCHANGED <<objs, point, tries, data, sro, infile, d, b>>
Broken == /\ pc \in {"start", "prepare", "load", "apply", "finish", "mark"}
          /\ (Fail /\ tries' = tries) \/ Bad
          /\ UNCHANGED <<objs, point, data, sro, infile, marked, d, b>>
(* the reply to a statement or update that was carried out is lost         *)
Lost == \/ pc = "mark" /\ marked' = TRUE /\ Fail /\ UNCHANGED <<objs, point, tries, data, sro, infile, d, b>>
        \/ pc = "finish" /\ sro' = TRUE /\ Bad /\ UNCHANGED <<objs, point, data, infile, marked, d, b>>
Next == Choose \/ Prepare \/ Load \/ MarkEarly \/ Apply \/ Finish \/ Mark \/ Broken \/ Lost
Spec == Init /\ [][Next]_vars

Best == Latest(Dumps(objs, "ns", "c", point))
Right == data = Range(Best.txns) \cup UNION {Wanted(o, point, "") : o \in Logs(objs, Best, point)}
MarkedOK == marked => /\ Dumps(objs, "ns", "c", point) # {} /\ Right /\ Best.complete
                      /\ pc = "end" => sro /\ ~infile
SuccessOK == rc = 0 => marked
============================================================================
