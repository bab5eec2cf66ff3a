------------------------------ MODULE LongMon ------------------------------
(***************************************************************************)
(* Long runs: what a program holds after some operations, after twice as   *)
(* many, and so on.  What is needed once (the sizes of the largest members *)
(* and caches seen so far) grows ever more slowly; what is lost in every   *)
(* operation grows as fast as the operations.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Props == {"C30"}
Flag(m, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = Props]

LInit0(k) == [viol |-> {}, marks |-> <<>>]

(* F grows by more than lim for each operation (and base) between a and b *)
Grows(a, b, f(_), lim, base) == f(b) - f(a) > base + (lim * (b.n - a.n))

Heap(x) == x.heap
(* one for every 64 operations *)
Few(x)  == x.gor * 64
Open(x) == x.files * 64

LStep(c, m, e) ==
   IF e.e = "abort" THEN [m EXCEPT !.viol = Props]
   ELSE LET s == Append(m.marks, e)
            n == Len(s)
            both(f(_), lim, base) == n >= 3 /\ Grows(s[n - 2], s[n - 1], f, lim, base) /\ Grows(s[n - 1], s[n], f, lim, base)
        IN Flag([m EXCEPT !.marks = s],
                \/ n < c.marks
                \/ /\ ~both(Heap, c.lim, 0)
                   /\ ~both(Few, 1, 15 * 64)
                   /\ ~both(Open, 1, 3 * 64))
===========================================================================
