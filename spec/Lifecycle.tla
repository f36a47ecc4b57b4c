------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* What starting, pausing and stopping the maintenance of clusters means.  *)
(* An abstract state says for every cluster whether it is maintained, and  *)
(* whether MOCO has been shut down.  A call takes effect at one moment     *)
(* between its beginning and its return; as calls can overlap, the checker *)
(* keeps the set of all abstract states the history allows.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* a state: st[c] in {"new", "on", "paused", "stopped"}, down, done = pending calls that have taken effect
Fresh(C) == [st |-> [c \in C |-> "new"], down |-> FALSE, done |-> {}]

Effect(s, call) ==
  LET c == call.c IN
  CASE call.m = "update"  -> IF s.down THEN s ELSE [s EXCEPT !.st[c] = "on"]
    [] call.m = "nostart" -> s
    [] call.m = "stop"    -> [s EXCEPT !.st[c] = IF @ = "new" THEN "new" ELSE "stopped"]
    [] call.m = "pause"   -> [s EXCEPT !.st[c] = IF @ = "on" THEN "paused" ELSE @]
    [] call.m = "stopall" -> [s EXCEPT !.st = [x \in DOMAIN s.st |-> IF s.st[x] = "on" THEN "stopped" ELSE s.st[x]], !.down = TRUE]

\* one more pending call takes effect
Linear(S, pend) == S \cup {[Effect(s, call) EXCEPT !.done = @ \cup {call.id}] : <<s, call>> \in {<<s, call>> \in S \X pend : call.id \notin s.done}}
RECURSIVE Closure(_, _)
Closure(S, pend) == LET T == Linear(S, pend) IN IF T = S THEN S ELSE Closure(T, pend)
\* the call with this id has returned
Returned(S, id) == {[s EXCEPT !.done = @ \ {id}] : s \in {s \in S : id \in s.done}}

Maintained(s, c) == s.st[c] = "on" /\ ~s.down
==============================================================================
