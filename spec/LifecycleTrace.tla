--------------------------- MODULE LifecycleTrace ---------------------------
(* Validates a trace of the real cluster manager and pod watcher.           *)
EXTENDS Lifecycle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, pend, bad
vars == <<l, S, pend, bad>>

If(c, m) == IF c THEN {<<"C13", m>>} ELSE {}
Range(f) == {f[x] : x \in DOMAIN f}

\* [S, pend, v]
R(S2, p2, v) == [S |-> S2, pend |-> p2, v |-> v]
\* keep the states that satisfy P; if none does, the property is violated
Keep(P(_), m) == LET T == {s \in S : P(s)} IN IF T = {} THEN R(S, pend, {<<"C13", m>>}) ELSE R(Closure(T, pend), pend, {})

Why(c) == LET s == CHOOSE s \in S : TRUE IN IF s.down THEN "after shutdown" ELSE "while its maintenance is " \o
            (CASE s.st[c] = "new" -> "not started" [] s.st[c] = "paused" -> "paused" [] OTHER -> "stopped")

Step(ev) ==
  CASE ev.e = "call" ->
         LET call == [id |-> ev.id, m |-> ev.m, c |-> ev.c] IN R(Closure(S, pend \cup {call}), pend \cup {call}, {})
    [] ev.e = "ret" ->
         LET p2 == {x \in pend : x.id # ev.id} IN R(Closure(Returned(S, ev.id), p2), p2, {})
    [] ev.e = "op" ->
         LET r == Keep(LAMBDA s : Maintained(s, ev.c), "an operation was issued for a cluster " \o Why(ev.c) \o ": " \o ev.what) IN
         [r EXCEPT !.v = @ \cup If(ev.busy, "two maintenance loops act on one cluster")]
    \* a loop that has nothing else to do was notified; rounds = maintenance rounds begun at once
    [] ev.e = "kick" ->
         LET P(s) == IF Maintained(s, ev.c) THEN (ev.due => ev.rounds > 0) ELSE ev.rounds = 0 IN
         Keep(P, IF ev.rounds = 0 THEN "a notification did not start a round of a maintained cluster" ELSE "a notification started an unmanaged cluster")
    [] ev.e = "nokick" -> R(S, pend, If(ev.rounds > 0, "a pod that is neither terminating nor to be demoted, or not of a cluster, started a round"))
    \* nothing is going on; rounds = rounds since at least one interval
    [] ev.e = "settled" ->
         LET P(s) == CASE Maintained(s, ev.c) -> ev.rounds > 0 [] OTHER -> ev.rounds = 0
             M(s) == CASE s.st[ev.c] \in {"new", "stopped"} -> ev.metrics = "absent"
                       [] Maintained(s, ev.c) -> ev.metrics = "present"
                       [] OTHER -> ev.metrics = "unknown"
             a == Keep(P, IF ev.rounds = 0 THEN "a maintained cluster is not maintained" ELSE "a cluster is maintained " \o Why(ev.c))
         IN [a EXCEPT !.v = @ \cup If(~\E s \in a.S : M(s), "the metrics of cluster are " \o ev.metrics \o " but it is "
                                        \o (LET s == CHOOSE s \in a.S : TRUE IN s.st[ev.c]))]
    [] OTHER -> R(S, pend, {})

Report(new) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2])

Init == l = 1 /\ S = {} /\ pend = {} /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.e = "reset"
     THEN S' = {Fresh(Range(ev.clusters))} /\ pend' = {} /\ bad' = bad
     ELSE LET r == Step(ev) IN
          S' = r.S /\ pend' = r.pend /\ Report(r.v) /\ bad' = bad \cup {b[1] : b \in r.v}
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
