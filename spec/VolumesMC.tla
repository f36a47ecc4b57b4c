------------------------------ MODULE VolumesMC ------------------------------
(***************************************************************************)
(* The design of volume expansion: enlarge the claims, delete the          *)
(* StatefulSet leaving its pods, create it again with the new template.    *)
(* Users change the wanted size, others enlarge claims, the StatefulSet    *)
(* may be rolling out, and MOCO may crash between any two requests.        *)
(* Leftover: FALSE is the deliberately wrong variant that forgets claims   *)
(* if the StatefulSet was replaced while claims could not be resized.      *)
(***************************************************************************)
EXTENDS Operator
CONSTANTS N, Max, Changes, Others, Crashes, Toggles, Leftover
VARIABLES want, sts, pvc, rc, budget, bad
vars == <<want, sts, pvc, rc, budget, bad>>
I == 0 .. (N - 1)
Idle == [st |-> "idle"]
Init == /\ want = 1 /\ sts = [e |-> "yes", vol |-> 1, busy |-> FALSE] /\ pvc = [i \in I |-> 1] /\ rc = Idle /\ bad = {}
        /\ budget = [change |-> Changes, other |-> Others, crash |-> Crashes, busy |-> Toggles]
Spend(f) == budget[f] > 0 /\ budget' = [budget EXCEPT ![f] = @ - 1]

User == /\ Spend("change") /\ \E s \in 1 .. Max : want' = s
        /\ UNCHANGED <<sts, pvc, rc, bad>>
Other(i) == /\ Spend("other") /\ \E s \in (pvc[i] + 1) .. Max : pvc' = [pvc EXCEPT ![i] = s]
            /\ UNCHANGED <<want, sts, rc, bad>>
Busy == /\ Spend("busy") /\ sts' = [sts EXCEPT !.busy = TRUE] /\ UNCHANGED <<want, pvc, rc, bad>>
Calm == /\ sts.busy /\ sts' = [sts EXCEPT !.busy = FALSE] /\ UNCHANGED <<want, pvc, rc, budget, bad>>
Orphaned == /\ sts.e = "del" /\ sts' = [sts EXCEPT !.e = "no"] /\ UNCHANGED <<want, pvc, rc, budget, bad>>
Crash == /\ Spend("crash") /\ rc # Idle /\ rc' = Idle /\ UNCHANGED <<want, sts, pvc, bad>>

Needs(w) == sts.vol < w \/ (Leftover /\ sts.vol = w /\ \E i \in I : pvc[i] < w)
Read == /\ rc = Idle /\ rc' = [st |-> "list", w |-> want] /\ UNCHANGED <<want, sts, pvc, budget, bad>>
List == /\ rc.st = "list"
        /\ rc' = IF sts.e = "no" \/ sts.busy \/ ~Needs(rc.w) THEN [st |-> "sts", w |-> rc.w] ELSE [st |-> "resize", w |-> rc.w, todo |-> I, seen |-> pvc]
        /\ UNCHANGED <<want, sts, pvc, budget, bad>>
Resize(i) ==
  /\ rc.st = "resize" /\ i \in rc.todo
  /\ LET more == rc.todo \ {i} next == IF more = {} THEN [st |-> "sts", w |-> rc.w] ELSE [rc EXCEPT !.todo = more] IN
     CASE rc.seen[i] > rc.w -> rc' = Idle /\ UNCHANGED <<pvc, bad>>          \* reported as an error
       [] rc.seen[i] = rc.w -> rc' = next /\ UNCHANGED <<pvc, bad>>
       [] pvc[i] # rc.seen[i] -> rc' = Idle /\ UNCHANGED <<pvc, bad>>        \* a conflict
       [] OTHER -> /\ rc' = next /\ pvc' = [pvc EXCEPT ![i] = SizeOf(pvc[i], rc.w, TRUE)]
                   /\ bad' = bad \cup If(rc.w < pvc[i], "C19", "lowered")
  /\ UNCHANGED <<want, sts, budget>>
Sts == /\ rc.st = "sts"
       /\ CASE sts.e = "yes" /\ sts.vol # rc.w -> sts' = [sts EXCEPT !.e = "del"] /\ rc' = [st |-> "wait", w |-> rc.w]
            [] sts.e = "no" -> sts' = [e |-> "yes", vol |-> rc.w, busy |-> FALSE] /\ rc' = Idle
            [] OTHER -> rc' = Idle /\ UNCHANGED sts
       /\ UNCHANGED <<want, pvc, budget, bad>>
Wait == /\ rc.st = "wait" /\ rc' = IF sts.e = "no" THEN [rc EXCEPT !.st = "sts"] ELSE Idle
        /\ UNCHANGED <<want, sts, pvc, budget, bad>>

Work == Read \/ List \/ Sts \/ Wait \/ \E i \in I : Resize(i)
Next == Work \/ User \/ Busy \/ Calm \/ Orphaned \/ Crash \/ \E i \in I : Other(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Calm) /\ WF_vars(Orphaned)

NothingBad == bad = {}
NeverLowered == [][\A i \in I : pvc'[i] >= pvc[i]]_vars
\* claims larger than wanted block the expansion of the others, as documented
Stuck == (\E i \in I : pvc[i] > want) /\ (sts.vol < want \/ \E i \in I : pvc[i] < want)
Good == sts.e = "yes" /\ sts.vol = want /\ \A i \in I : pvc[i] >= want
Converges == <>[](Stuck \/ Good)
=============================================================================
