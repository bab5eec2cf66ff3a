------------------------------ MODULE ClockMon ------------------------------
(***************************************************************************)
(* Steps of algorithms as they are seen from outside: every call that the  *)
(* library makes (mutator, evaluator, fitness functions) is timed and      *)
(* counted. Algorithm o reports its statistics after it was created, after *)
(* its steps and whenever it's asked.                                      *)
(*   run   calls that are still running                                    *)
(*   out   calls that began outside of the algorithm's steps               *)
(*   over  calls of mutator or evaluator during another one                *)
(*   lo    microseconds from the first call of the step to the last one's  *)
(*         end                                                             *)
(*   hi    how long the step took                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Props == {"C31"}
Flag(m, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = Props]

None == [gen |-> -1, t |-> 0, bf |-> "", best |-> ""]
CInit0(k) == [viol |-> {}, said |-> [o \in 1..k |-> None]]

Said(e) == [gen |-> e.gen, t |-> e.t, bf |-> e.bf, best |-> e.best]
Quiet(e) == e.run = 0 /\ e.out = 0 /\ e.over = 0

CStep(c, m, e) ==
   IF e.e = "abort" THEN [m EXCEPT !.viol = Props]
   ELSE LET old == m.said[e.o]
            n   == [m EXCEPT !.said[e.o] = Said(e)]
        IN Flag(n, /\ Quiet(e)
                   /\ CASE e.e = "new" -> old = None /\ e.gen = 0
                        [] e.e = "step" -> /\ e.gen = old.gen + 1
                                           /\ e.lo <= e.t
                                           /\ e.t <= e.hi
                        [] e.e = "ask" -> Said(e) = old)
===========================================================================
