------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* How numbers in a range are made of random words of W bits: fractions by *)
(* rounding the word to a float with M significant bits and dividing by    *)
(* 2^W, bounded integers by the rest of a division of the words that are   *)
(* not in the first, incomplete, part of the range.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS W, M, Bug

Words == 0..(2^W - 1)

RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)

(* The nearest float with M bits; of two the even one *)
Round(n) == IF Bits(n) <= M THEN n
            ELSE LET u == 2 ^ (Bits(n) - M)
                     q == n \div u
                     r == 2 * (n % u)
                 IN IF r > u \/ (r = u /\ q % 2 = 1) THEN (q + 1) * u ELSE q * u

VARIABLES op, res     \* op: <<"frac", 0>>, or <<"int", bound>>; res: -1 while no word was accepted
vars == <<op, res>>

Init == /\ op \in {<<"frac", 0>>} \cup ({"int"} \X (1..(2^W)))
        /\ res = -1

(* The words below the threshold are one too many for some of the results *)
Threshold(b) == IF Bug = "biased" THEN 0 ELSE (2^W - b) % b

Draw(n) == /\ res = -1
           /\ IF op[1] = "frac"
              THEN res' = IF Round(n) = 2^W /\ Bug # "noretry" THEN -1 ELSE Round(n)     \* times 2^-W
              ELSE res' = IF n >= Threshold(op[2]) THEN n % op[2] ELSE -1
           /\ UNCHANGED op

Next == \E n \in Words : Draw(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fractions == op[1] = "frac" => res < 2^W
Bounded   == op[1] = "int" => res < op[2]
Fair      == op[1] = "int" =>
               LET count(r) == Cardinality({n \in Words : n >= Threshold(op[2]) /\ n % op[2] = r})
               IN \A r \in 0..(op[2] - 1) : count(r) = count(0) /\ count(r) > 0
Ends      == <>(res # -1)
=============================================================================
