------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Saving what an algorithm reports: after every Reps generations its best *)
(* points replace the contents of a file, and a line is appended to a      *)
(* buffered list of generations, which is flushed.  A program can be ended *)
(* at any time; the list then lacks at most the last line, and between two *)
(* savings nothing is missing.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Reps, MaxGen, MaxLen, Bug

Bugs == {"none", "noflush", "overlay", "early", "once"}
ASSUME Bug \in Bugs /\ Reps \in Nat \ {0}

VARIABLES gen, best, pc, out, buf, disk, hist
vars == <<gen, best, pc, out, buf, disk, hist>>

(* Points as sequences, which can become shorter *)
Groups == UNION {[1..n -> 0..1] : n \in 0..MaxLen}
None == <<2>>

Init == /\ gen = 0 /\ best \in Groups /\ pc = "run" /\ out = None
        /\ buf = <<>> /\ disk = <<>> /\ hist = <<>>

Step == /\ pc = "run" /\ gen < MaxGen
        /\ gen' = gen + 1
        /\ \E g \in Groups : best' = g
        /\ LET end == IF Bug = "early" THEN gen % Reps = 0 ELSE gen' % Reps = 0
           IN pc' = IF end THEN "save" ELSE "run"
        /\ hist' = IF gen' % Reps = 0 THEN Append(hist, <<gen', best'>>) ELSE hist
        /\ UNCHANGED <<out, buf, disk>>

Save == /\ pc = "save" /\ pc' = "line"
        /\ out' = CASE Bug = "overlay" /\ out # None -> best \o SubSeq(out, Len(best) + 1, Len(out))
                    [] Bug = "once" /\ out # None    -> out
                    [] OTHER                         -> best
        /\ UNCHANGED <<gen, best, buf, disk, hist>>

Line == /\ pc = "line" /\ pc' = "flush"
        /\ buf' = Append(buf, gen)
        /\ UNCHANGED <<gen, best, out, disk, hist>>

Flush == /\ pc = "flush" /\ pc' = "run"
         /\ IF Bug = "noflush" /\ Len(buf) < 2 THEN UNCHANGED <<buf, disk>>
            ELSE disk' = disk \o buf /\ buf' = <<>>
         /\ UNCHANGED <<gen, best, out, hist>>

Next == Step \/ Save \/ Line \/ Flush
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Gens(h) == [i \in 1..Len(h) |-> h[i][1]]

(* While the algorithm runs, everything is saved *)
Saved == pc = "run" => /\ disk = Gens(hist)
                       /\ out = IF hist = <<>> THEN None ELSE hist[Len(hist)][2]

(* Whenever it's ended, at most the last line is missing *)
Ended == /\ Len(disk) \in {Len(hist), Len(hist) - 1}
         /\ disk = SubSeq(Gens(hist), 1, Len(disk))
=============================================================================
