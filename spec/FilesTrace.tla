--------------------------- MODULE FilesTrace ---------------------------
(* Validates recorded histories of the real code: each line is one.       *)
EXTENDS FilesMon, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

VARIABLES tid, l, m
vars == <<tid, l, m>>

Run == Traces[tid].t

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ m = FlInit0(Traces[tid].k)

Next == /\ l <= Len(Run)
        /\ l' = l + 1
        /\ m' = FlStep(Traces[tid], m, Run[l])
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

NoViolation == Prop \notin m.viol

(* All events of all traces were consumed *)
Expected == LET RECURSIVE Sum(_, _)
                Sum(i, j) == IF i > j THEN 0
                             ELSE IF i = j THEN Len(Traces[i].t) + 1
                             ELSE LET k == (i + j) \div 2 IN Sum(i, k) + Sum(k + 1, j)
            IN Sum(1, Len(Traces))
Accepted == TLCGet("stats").distinct = Expected
===========================================================================
