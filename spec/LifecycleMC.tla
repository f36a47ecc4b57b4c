----------------------------- MODULE LifecycleMC -----------------------------
(***************************************************************************)
(* The design of the cluster manager: a table of processes under a mutex,  *)
(* one goroutine per process, cancelled through its context.  A process    *)
(* holds the time series it found or created when it was made; a series    *)
(* that was deleted can still be written to but is not exposed any more.   *)
(* Stopping deletes the exposed series at once (DeleteAtOnce) or, as a     *)
(* deliberately wrong variant, when the goroutine ends.                    *)
(* Checked against the abstract meaning of the calls in Lifecycle.         *)
(***************************************************************************)
EXTENDS Lifecycle
CONSTANTS C, MaxProc, DeleteAtOnce
VARIABLES abs,     \* the abstract state
          procs,   \* [C -> process in the table or 0]
          P,       \* all processes
          reg,     \* [C -> exposed series or 0]
          val,     \* values of the series
          shut
vars == <<abs, procs, P, reg, val, shut>>

Init == /\ abs = Fresh(C) /\ procs = [c \in C |-> 0] /\ P = <<>>
        /\ reg = [c \in C |-> 0] /\ val = <<>> /\ shut = "no"
Call(m, c) == [id |-> 0, m |-> m, c |-> c]
Can == shut = "no"     \* the mutex is held during the whole shutdown

Update(c) ==
  /\ Can /\ procs[c] = 0 /\ Len(P) < MaxProc
  /\ IF reg[c] = 0 THEN reg' = [reg EXCEPT ![c] = Len(val) + 1] /\ val' = Append(val, "present") ELSE UNCHANGED <<reg, val>>
  /\ P' = Append(P, [c |-> c, live |-> TRUE, pc |-> "loop", pause |-> FALSE, rounds |-> 0, h |-> reg'[c]])
  /\ procs' = [procs EXCEPT ![c] = Len(P) + 1]
  /\ abs' = Effect(abs, Call("update", c)) /\ UNCHANGED shut
Leave(c, pause) ==
  /\ P' = [P EXCEPT ![procs[c]].live = FALSE, ![procs[c]].pause = pause]
  /\ procs' = [procs EXCEPT ![c] = 0]
Stop(c) ==
  /\ Can /\ abs' = Effect(abs, Call("stop", c)) /\ UNCHANGED <<val, shut>>
  /\ IF procs[c] # 0 THEN Leave(c, FALSE) ELSE UNCHANGED <<P, procs>>
  /\ reg' = IF DeleteAtOnce THEN [reg EXCEPT ![c] = 0] ELSE reg
Pause(c) ==
  /\ Can /\ procs[c] # 0 /\ Leave(c, TRUE)
  /\ abs' = Effect(abs, Call("pause", c)) /\ UNCHANGED <<reg, val, shut>>
StopAll ==
  /\ Can /\ shut' = "waiting"
  /\ P' = [p \in DOMAIN P |-> IF \E c \in C : procs[c] = p THEN [P[p] EXCEPT !.live = FALSE] ELSE P[p]]
  /\ reg' = IF DeleteAtOnce THEN [c \in C |-> IF procs[c] # 0 THEN 0 ELSE reg[c]] ELSE reg
  /\ procs' = [c \in C |-> 0] /\ abs' = Effect(abs, Call("stopall", CHOOSE c \in C : TRUE)) /\ UNCHANGED val
StoppedAll ==
  /\ shut = "waiting" /\ \A p \in DOMAIN P : P[p].pc = "done"
  /\ shut' = "yes" /\ UNCHANGED <<abs, procs, P, reg, val>>
\* a round, or what remains of one after the process was cancelled
Round(p) ==
  /\ P[p].pc = "loop" /\ P[p].rounds < 2
  /\ P' = [P EXCEPT ![p].rounds = @ + 1] /\ val' = [val EXCEPT ![P[p].h] = "present"]
  /\ UNCHANGED <<abs, procs, reg, shut>>
End(p) ==
  /\ P[p].pc = "loop" /\ ~P[p].live
  \* counts the rounds of the successor from here on
  /\ P' = [q \in DOMAIN P |-> IF q = p THEN [P[q] EXCEPT !.pc = "done"] ELSE IF P[q].c = P[p].c THEN [P[q] EXCEPT !.rounds = 0] ELSE P[q]]
  /\ val' = IF P[p].pause THEN [val EXCEPT ![P[p].h] = "unknown"] ELSE val
  /\ reg' = IF ~DeleteAtOnce /\ ~P[p].pause THEN [reg EXCEPT ![P[p].c] = 0] ELSE reg
  /\ UNCHANGED <<abs, procs, shut>>
Next == \/ \E c \in C : Update(c) \/ Stop(c) \/ Pause(c)
        \/ StopAll \/ StoppedAll
        \/ \E p \in DOMAIN P : Round(p) \/ End(p)
Spec == Init /\ [][Next]_vars /\ \A k \in 1..MaxProc : WF_vars(k \in DOMAIN P /\ End(k)) /\ WF_vars(StoppedAll)

\* a process that can issue operations belongs to a maintained cluster
OpsOnlyIfMaintained == \A p \in DOMAIN P : P[p].pc = "loop" /\ P[p].live => Maintained(abs, P[p].c)
AtMostOneLoop == \A p, q \in DOMAIN P : P[p].live /\ P[q].live /\ P[p].c = P[q].c => p = q
NothingAfterShutdown == shut = "yes" => \A p \in DOMAIN P : P[p].pc = "done"
Quiet(c) == \A p \in DOMAIN P : P[p].c = c => P[p].pc = "done" \/ (P[p].live /\ P[p].rounds > 0)
Exposed(c) == IF reg[c] = 0 THEN "absent" ELSE val[reg[c]]
MetricsRight == \A c \in C : Quiet(c) =>
  Exposed(c) = (CASE abs.st[c] \in {"new", "stopped"} -> "absent" [] Maintained(abs, c) -> "present" [] OTHER -> "unknown")
\* a shutdown ends
ShutdownEnds == (shut = "waiting") ~> (shut = "yes")
==============================================================================
