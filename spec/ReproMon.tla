------------------------------ MODULE ReproMon ------------------------------
(***************************************************************************)
(* The same run of an algorithm under several circumstances: orders in     *)
(* which evaluations end, numbers of processors, times, cache sizes and    *)
(* algorithms beside it.                                                   *)
(*                                                                         *)
(* An event "gen" is a generation of all runs.  Of each it says which      *)
(* members were evaluated (evs, as a bag): their points p, mutations m     *)
(* and fitness v; and the best points and fitness that were reported.      *)
(* Points and lists of mutations are numbered.  Fitnesses are integers,    *)
(* equal if they differ by at most c.eps; two members that differ by at    *)
(* most c.tol may be ranked in any order.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ReProps == {"C26"}
ReInit0(k) == [open |-> TRUE, viol |-> {}]

Abs(a) == IF a < 0 THEN -a ELSE a

(* Two members that aren't the same, and equally fit *)
Tied(c, r) == \E i \in 1..Len(r.evs) : \E j \in 1..(i - 1) :
                 /\ r.evs[i].p # r.evs[j].p
                 /\ Abs(r.evs[i].v - r.evs[j].v) <= c.tol

Number(r, p, m) == Cardinality({i \in 1..Len(r.evs) : r.evs[i].p = p /\ r.evs[i].m = m})

SameMembers(a, b) ==
    /\ Len(a.evs) = Len(b.evs)
    /\ \A i \in 1..Len(a.evs) : Number(a, a.evs[i].p, a.evs[i].m) = Number(b, a.evs[i].p, a.evs[i].m)

SameFitness(c, a, b) ==
    \A i \in 1..Len(a.evs) : \A j \in 1..Len(b.evs) :
        a.evs[i].p = b.evs[j].p => Abs(a.evs[i].v - b.evs[j].v) <= c.eps

SameReport(c, a, b) == /\ a.best = b.best
                       /\ Abs(a.bf - b.bf) <= c.eps
                       /\ a.gen = b.gen

Same(c, a, b) == SameMembers(a, b) /\ SameFitness(c, a, b) /\ SameReport(c, a, b)

ReStep(c, m, e) ==
    IF e.e # "gen" THEN [m EXCEPT !.viol = ReProps]
    ELSE IF ~m.open THEN m
    ELSE IF Tied(c, e.runs[1]) THEN [m EXCEPT !.open = FALSE]
    ELSE IF \A r \in 2..Len(e.runs) : Same(c, e.runs[1], e.runs[r]) THEN m
    ELSE [m EXCEPT !.viol = ReProps, !.open = FALSE]
=============================================================================
