----------------------------- MODULE ReconcileMC -----------------------------
(***************************************************************************)
(* The design of the reconciliation of a MySQLCluster: one request after   *)
(* the other from what was read at the beginning, with crashes between any *)
(* two, while the user edits, stops, deletes and re-creates the cluster,   *)
(* and others remove or alter what MOCO made.                              *)
(* PauseAlways: FALSE is the deliberately wrong variant that pauses the    *)
(* maintenance only when the status does not tell yet that it is paused.   *)
(***************************************************************************)
EXTENDS Operator
CONSTANTS Edits, Drifts, Crashes, Lives, PauseAlways
VARIABLES clu,   \* the MySQLCluster: [e, cluStop, recStop, backup, replicas, offline]
          st,    \* its status: is maintenance active, is reconciliation active, was the last one successful
          sysPw, cert, userPw, cron, role, pdb, active, \* the other objects
          mgr,   \* the maintenance, lost in a crash
          rc, pw, budget, bad
vars == <<clu, st, sysPw, cert, userPw, cron, role, pdb, active, mgr, rc, pw, budget, bad>>
objects == <<sysPw, cert, userPw, cron, role, pdb>>
None == -2
Idle == [at |-> "idle", c |-> [e |-> "no"]]
New == [e |-> "yes", cluStop |-> FALSE, recStop |-> FALSE, backup |-> FALSE, replicas |-> 3, offline |-> FALSE]
Init == /\ clu = New /\ st = [clu |-> "unknown", rec |-> "unknown", ok |-> "unknown"] /\ sysPw = 0 /\ cert = FALSE /\ userPw = 0 /\ cron = FALSE /\ role = FALSE /\ pdb = None
        /\ active = FALSE /\ mgr = "none" /\ rc = Idle /\ pw = 0 /\ bad = {}
        /\ budget = [edit |-> Edits, drift |-> Drifts, crash |-> Crashes, life |-> Lives]
Spend(f) == budget[f] > 0 /\ budget' = [budget EXCEPT ![f] = @ - 1]

Edit == /\ clu.e = "yes" /\ Spend("edit")
        /\ \E f \in {"cluStop", "recStop", "backup", "offline"} : clu' = [clu EXCEPT ![f] = ~@]
        /\ UNCHANGED <<st, objects, active, mgr, rc, pw, bad>>
Delete == clu.e = "yes" /\ Spend("life") /\ clu' = [clu EXCEPT !.e = "del"] /\ UNCHANGED <<st, objects, active, mgr, rc, pw, bad>>
\* the garbage collector removed what the old cluster owned
Create == /\ clu.e = "no" /\ userPw = 0 /\ ~cron /\ ~role /\ pdb = None /\ Spend("life") /\ clu' = New /\ st' = [clu |-> "unknown", rec |-> "unknown", ok |-> "unknown"]
          /\ UNCHANGED <<objects, active, mgr, rc, pw, bad>>
Collect == /\ clu.e = "no" /\ (userPw # 0 \/ cron \/ role \/ pdb # None) /\ userPw' = 0 /\ cron' = FALSE /\ role' = FALSE /\ pdb' = None /\ active' = FALSE
           /\ UNCHANGED <<clu, st, sysPw, cert, mgr, rc, pw, budget, bad>>
Drift == /\ clu.e # "no" /\ Spend("drift")
         /\ \/ userPw' = 0 /\ UNCHANGED <<cert, cron, role, pdb>>
            \/ userPw' = -1 /\ UNCHANGED <<cert, cron, role, pdb>>
            \/ cert' = FALSE /\ UNCHANGED <<userPw, cron, role, pdb>>
            \/ role' = FALSE /\ UNCHANGED <<userPw, cert, cron, pdb>>
            \/ cron' = FALSE /\ UNCHANGED <<userPw, cert, role, pdb>>
            \/ pdb' = None /\ UNCHANGED <<userPw, cert, cron, role>>
         /\ UNCHANGED <<clu, st, sysPw, active, mgr, rc, pw, bad>>
Job == /\ active' = (~active /\ cron) /\ active' # active /\ Spend("drift") /\ UNCHANGED <<clu, st, objects, mgr, rc, pw, bad>>
Crash == /\ Spend("crash") /\ rc' = Idle /\ mgr' = "none" /\ UNCHANGED <<clu, st, objects, active, pw, bad>>

\* the reconciliation
Go(at) == rc' = [rc EXCEPT !.at = at]
End == rc' = Idle
Read == /\ rc.at = "idle" /\ rc' = [at |-> IF clu.e = "no" THEN "gone" ELSE IF clu.e = "del" THEN "f1" ELSE "mgr", c |-> clu]
        /\ UNCHANGED <<clu, st, objects, active, mgr, pw, budget, bad>>
Gone == rc.at = "gone" /\ mgr' = "stop" /\ End /\ UNCHANGED <<clu, st, objects, active, pw, budget, bad>>
\* deletion
F1 == rc.at = "f1" /\ mgr' = "stop" /\ Go("f2") /\ UNCHANGED <<clu, st, objects, active, pw, budget, bad>>
F2 == rc.at = "f2" /\ sysPw' = 0 /\ Go("f3") /\ UNCHANGED <<clu, st, cert, userPw, cron, role, pdb, active, mgr, pw, budget, bad>>
F3 == rc.at = "f3" /\ cert' = FALSE /\ Go("f4") /\ UNCHANGED <<clu, st, sysPw, userPw, cron, role, pdb, active, mgr, pw, budget, bad>>
F4 == /\ rc.at = "f4" /\ clu' = [clu EXCEPT !.e = "no"] /\ End
      /\ bad' = bad \cup If(sysPw # 0 \/ cert, "C18", "released too early") \cup If(mgr # "stop", "C18", "released while it is maintained")
      /\ UNCHANGED <<st, objects, active, mgr, pw, budget>>
\* maintenance
M == /\ rc.at = "mgr"
     /\ IF rc.c.cluStop THEN mgr' = IF PauseAlways \/ st.clu # "stopped" THEN "pause" ELSE mgr
        ELSE mgr' = "update"
     /\ st' = IF clu.e = "no" THEN st ELSE [st EXCEPT !.clu = IF rc.c.cluStop THEN "stopped" ELSE "active", !.rec = IF rc.c.recStop THEN "stopped" ELSE "active"]
     /\ IF rc.c.recStop THEN End ELSE Go("sec")
     /\ UNCHANGED <<clu, objects, active, pw, budget, bad>>
\* resources
Sec == /\ rc.at = "sec" /\ Go("usr") /\ IF sysPw = 0 THEN sysPw' = pw + 1 /\ pw' = pw + 1 ELSE UNCHANGED <<sysPw, pw>>
       /\ UNCHANGED <<clu, st, cert, userPw, cron, role, pdb, active, mgr, budget, bad>>
Usr == /\ rc.at = "usr" /\ IF sysPw = 0 THEN Go("no") /\ UNCHANGED userPw ELSE userPw' = sysPw /\ Go("cert")
       /\ UNCHANGED <<clu, st, sysPw, cert, cron, role, pdb, active, mgr, pw, budget, bad>>
Cert == rc.at = "cert" /\ cert' = TRUE /\ Go("cron") /\ UNCHANGED <<clu, st, sysPw, userPw, cron, role, pdb, active, mgr, pw, budget, bad>>
Cron == rc.at = "cron" /\ cron' = rc.c.backup /\ active' = (active /\ rc.c.backup) /\ Go("role") /\ UNCHANGED <<clu, st, sysPw, cert, userPw, role, pdb, mgr, pw, budget, bad>>
Role == rc.at = "role" /\ role' = rc.c.backup /\ Go("pdb") /\ UNCHANGED <<clu, st, sysPw, cert, userPw, cron, pdb, active, mgr, pw, budget, bad>>
WantPdb(c, a) == LET b == BudgetOf(c.replicas, c.offline, a) IN IF b = -1 THEN None ELSE b
Pdb == rc.at = "pdb" /\ pdb' = WantPdb(rc.c, rc.c.backup /\ active) /\ Go("yes") /\ UNCHANGED <<clu, st, sysPw, cert, userPw, cron, role, active, mgr, pw, budget, bad>>
\* a request fails, and the outcome is written to the status at the end
Fail == rc.at \in {"sec", "usr", "cert", "cron", "role", "pdb"} /\ Spend("crash") /\ Go("no") /\ UNCHANGED <<clu, st, objects, active, mgr, pw, bad>>
Tell == /\ rc.at \in {"yes", "no"} /\ End /\ st' = IF clu.e = "no" THEN st ELSE [st EXCEPT !.ok = rc.at]
        /\ UNCHANGED <<clu, objects, active, mgr, pw, budget, bad>>

Work == Read \/ Gone \/ F1 \/ F2 \/ F3 \/ F4 \/ M \/ Sec \/ Usr \/ Cert \/ Cron \/ Role \/ Pdb \/ Tell
Next == Work \/ Fail \/ Edit \/ Delete \/ Create \/ Collect \/ Drift \/ Job \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Collect)

NothingBad == bad = {}
\* passwords change only when the cluster is deleted
PasswordsStay == [][sysPw # 0 /\ clu.e = "yes" => sysPw' = sysPw]_vars
OnlyGenerated == userPw \in {0, -1, sysPw} \/ clu.e # "yes"
\* success is told only at the end of a successful reconciliation, and a failure is never forgotten
Truth == [][st'.ok # st.ok => (st'.ok = "yes" <=> rc.at = "yes") /\ (st'.ok = "no" <=> rc.at = "no")]_vars
Good == CASE clu.e = "no" -> sysPw = 0 /\ ~cert /\ mgr = "stop"
          [] clu.e = "del" -> FALSE
          [] OTHER -> /\ mgr = (IF clu.cluStop THEN "pause" ELSE "update") /\ st.clu = (IF clu.cluStop THEN "stopped" ELSE "active")
                      /\ st.rec = (IF clu.recStop THEN "stopped" ELSE "active")
                      /\ clu.recStop \/ /\ st.ok = "yes" /\ sysPw # 0 /\ userPw = sysPw /\ cert /\ cron = clu.backup /\ role = clu.backup
                                        /\ pdb = WantPdb(clu, clu.backup /\ active)
Converges == <>[]Good
=============================================================================
