------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* A step of an algorithm and the time it reports: members are mutated,    *)
(* evaluated at the same time as each other, the best mutations combined   *)
(* and evaluated, too. The time is that from the step's beginning to its   *)
(* end, so that it covers every call, and no evaluation runs between steps. *)
(* Bug: "late" (the clock is started after the mutations), "early" (it's   *)
(* read before combining), "sum" (the times of all steps together),        *)
(* "since" (the time since the step before), "leave" (the last result      *)
(* isn't waited for), "none"                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS N, Gens, End, Bug   \* members; generations; the latest time

VARIABLES now, phase,
          begun, start,   \* when the step began, when the clock was started
          first, last,    \* when its first call began, when its last one ended
          running, done,  \* evaluations
          gen, said, took \* the generations and the time reported, how long the step took
vars == <<now, phase, begun, start, first, last, running, done, gen, said, took>>

Init == /\ now = 0 /\ phase = "idle" /\ begun = 0 /\ start = 0
        /\ first = -1 /\ last = 0 /\ running = {} /\ done = {}
        /\ gen = 0 /\ said = 0 /\ took = 0

First == IF first = -1 THEN now ELSE first

Wait == /\ phase = "idle" /\ now < End /\ now' = now + 1
        /\ UNCHANGED <<phase, begun, start, first, last, running, done, gen, said, took>>

Begin == /\ phase = "idle" /\ gen < Gens
         /\ phase' = "mutate" /\ begun' = now /\ first' = -1 /\ done' = {}
         /\ start' = IF Bug = "since" THEN start ELSE now
         /\ UNCHANGED <<now, last, running, gen, said, took>>

Mutate == /\ phase = "mutate"
          /\ \E d \in 0..1 : /\ now + d <= End
                             /\ now' = now + d /\ last' = now + d
                             /\ start' = IF Bug = "late" THEN now + d ELSE start
          /\ first' = First
          /\ phase' = "evaluate"
          /\ UNCHANGED <<begun, running, done, gen, said, took>>

Start(i) == /\ phase = "evaluate" /\ i \notin running \cup done
            /\ running' = running \cup {i}
            /\ UNCHANGED <<now, phase, begun, start, first, last, done, gen, said, took>>

Work == /\ running # {} /\ now < End /\ now' = now + 1
        /\ UNCHANGED <<phase, begun, start, first, last, running, done, gen, said, took>>

Finish(i) == /\ i \in running
             /\ running' = running \ {i} /\ done' = done \cup {i} /\ last' = now
             /\ UNCHANGED <<now, phase, begun, start, first, gen, said, took>>

Combine == /\ phase = "evaluate"
           /\ IF Bug = "leave" THEN Cardinality(done) >= N - 1 /\ running \cup done = 1..N ELSE done = 1..N
           /\ \E d \in 0..1 : now + d <= End /\ now' = now + d /\ last' = IF d = 0 THEN last ELSE now + d
           /\ said' = IF Bug = "early" THEN now - start ELSE said
           /\ phase' = "report"
           /\ UNCHANGED <<begun, start, first, running, done, gen, took>>

Report == /\ phase = "report"
          /\ said' = IF Bug = "early" THEN said ELSE IF Bug = "sum" THEN said + (now - start) ELSE now - start
          /\ start' = IF Bug = "since" THEN now ELSE start
          /\ took' = now - begun
          /\ gen' = gen + 1 /\ phase' = "idle"
          /\ UNCHANGED <<now, begun, first, last, running, done>>

Next == Wait \/ Begin \/ Mutate \/ Work \/ Combine \/ Report \/ \E i \in 1..N : Start(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars

Rests == phase = "idle" => running = {}
Covers == (phase = "idle" /\ gen > 0 /\ running = {}) => (last - first <= said /\ said <= took)
===========================================================================
