------------------------------ MODULE FilesMon ------------------------------
(***************************************************************************)
(* What utilities print and save while they run an algorithm.              *)
(*                                                                         *)
(* c.gens[g] is what the algorithm reports after g generations: its best   *)
(* points p and their fitness f, as the bits of the numbers.  An event     *)
(* "step" is a generation; seen when it starts are the points in the file  *)
(* (if there is one) and the lines, each a generation and a fitness.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

FlProps == {"C25"}
FlInit0(k) == [gen |-> 0, viol |-> {}]

Batches(c, m) == m.gen \div c.reps
Lines(c, m)   == [i \in 1..Batches(c, m) |-> <<i * c.reps, c.gens[i * c.reps].f>>]

Seen(c, m, e) ==
    /\ e.lines = Lines(c, m)
    /\ (c.kind = "output" /\ Batches(c, m) > 0) => (e.has /\ e.p = c.gens[Batches(c, m) * c.reps].p)

FlStep(c, m, e) ==
    CASE e.e = "step"  -> [m EXCEPT !.gen = @ + 1, !.viol = IF Seen(c, m, e) THEN @ ELSE FlProps]
      \* a file that was written in the end can be read, and the algorithm was run
      [] e.e = "ended" -> [m EXCEPT !.viol = IF e.ok /\ e.steps > 0 /\ e.long THEN @ ELSE FlProps]
      [] OTHER         -> [m EXCEPT !.viol = FlProps]
=============================================================================
