--------------------------- MODULE AdmissionTrace ---------------------------
(* Judges the answers of the real webhooks.                                 *)
EXTENDS Admission, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Text(s) == ToString(s)
Sts(ev) ==
  LET r == ev.r p == PartitionOf(r) IN
  If(~ev.ok, "C16", "the request was rejected: " \o ev.msg)
  \cup If(ev.ok /\ ev.part # p, "C16", "the stored partition is " \o ToString(ev.part) \o " instead of " \o ToString(p) \o ": " \o ev.d)
  \cup If(ev.ok /\ ~ev.rest, "C16", "something else than the partition was changed: " \o ev.d)
Clu(ev) ==
  LET e == IF ev.create THEN CreateErrors(ev.len, ev.new) ELSE UpdateErrors(ev.old, ev.new, ev.classes, ev.down) IN
  If(ev.ok /\ e # {}, "C25", "accepted in spite of " \o Text(e) \o ": " \o ev.d)
  \cup If(~ev.ok /\ e = {}, "C25", "rejected without reason (" \o ev.msg \o "): " \o ev.d)
Default(ev) ==
  If(~ev.ok, "C25", "the new cluster could not be completed: " \o ev.msg)
  \cup If(ev.ok /\ ~ev.fin, "C18", "a new cluster has no finalizer")
  \cup If(ev.ok /\ ~ev.fin, "C25", "a new cluster has no finalizer")
  \cup If(ev.ok /\ ((ev.base # 0 /\ ev.out # ev.base) \/ ev.out = 0 \/ (ev.base = 0 /\ ev.out < 0)), "C25", "the server ID base is wrong")
  \cup If(ev.ok /\ ~ev.rest, "C25", "something else was changed in a new cluster")
Pol(ev) ==
  If(ev.ok # (ev.cron \in GoodCrons \ {""}), "C25", "a backup policy with the schedule " \o ev.cron \o " was " \o (IF ev.ok THEN "accepted" ELSE "rejected"))

Step(ev) == CASE ev.e = "sts" -> Sts(ev)
              [] ev.e = "clu" -> Clu(ev)
              [] ev.e = "default" -> Default(ev)
              [] ev.e = "pol" -> Pol(ev)
              [] OTHER -> {}
Report(new) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2])
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Step(Trace[l]) IN Report(v) /\ bad' = bad \cup {b[1] : b \in v}
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
