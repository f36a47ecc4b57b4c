---------------------------- MODULE MyCnfTrace ----------------------------
(* Judges the files generated by the real code.                           *)
EXTENDS MyCnf, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, defaults
vars == <<l, bad, defaults>>

Range(s) == {s[i] : i \in 1..Len(s)}
Own(f) == {x \in Range(f) : x.b # PoolOption /\ x.b \notin {r.b : r \in Required.mysqld}}
Names(f) == {f[i].name : i \in 1..Len(f)}
Gen(ev, d) ==
  LET user == Range(ev.user) dd == Own(d) IN
  MysqldFaults(user, dd, ev.pool, ev.mysqld)
  \cup OtherSection("client", ev.client) \cup OtherSection("mysql", ev.mysql)
  \cup If(Range(ev.sections) # {"mysqld", "client", "mysql"}, "C22", "the sections are wrong")
  \cup If(~ev.opaque, "C22", "the opaque part is not at the beginning of [mysqld]")
  \cup If(~ev.last, "C22", "the file does not include the configuration of moco-init at its end")
  \cup If(~ev.same, "C22", "equal inputs gave different files")
  \cup If(Chosen(user, PoolOption) = {} /\ ~PoolOK(ev.mem, ev.poolmib), "C22", "the buffer pool of " \o ToString(ev.poolmib) \o " MiB is wrong for " \o ToString(ev.mem) \o " MiB of memory")

Mark(s, ev) == {<<b[1], b[2] \o ": " \o ev.d>> : b \in s}
Step(ev) == CASE ev.e = "gen" -> Mark(Gen(ev, defaults), ev)
              [] ev.e = "reset" -> {}
              [] ev.e = "panic" -> {<<"C22", "the generator failed: " \o ev.d>>}
              [] OTHER -> {}
Report(new) == \A b \in new : PrintT("BAD|" \o b[1] \o "|" \o ToString(l) \o "|" \o b[2])
Init == l = 1 /\ bad = {} /\ defaults = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ defaults' = IF Trace[l].e = "reset" THEN Trace[l].mysqld ELSE defaults
        /\ LET v == Step(Trace[l]) IN Report(v) /\ bad' = bad \cup {b[1] : b \in v}
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
