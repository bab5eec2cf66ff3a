------------------------------- MODULE Spaced -------------------------------
(***************************************************************************)
(* The spaced generator: points of a grid; in each step one of them is     *)
(* moved to some place if that is farther from its nearest neighbour.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences

CONSTANTS G, N, Steps, Bug

Places == (0..G) \X (0..G)

VARIABLES pts, k
vars == <<pts, k>>

D(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])

(* The distance from p to the nearest of the points but the i-th; -1 if there is none *)
Nearest(p, i, P) ==
    LET others == CASE Bug = "skipequal" -> {j \in (1..N) \ {i} : P[j] # p}      \* points, not indices, are compared
                    [] Bug = "skipnone"  -> 1..N
                    [] OTHER             -> (1..N) \ {i}
    IN IF others = {} THEN -1 ELSE Min({D(p, P[j]) : j \in others})

Farther(a, b) == IF Bug = "lastmove" THEN a >= b - 1 ELSE a > b

Init == pts \in [1..N -> Places] /\ k = 0

Move(i, p) == /\ k < Steps
              /\ k' = k + 1
              /\ pts' = IF Farther(Nearest(p, i, pts), Nearest(pts[i], i, pts)) THEN [pts EXCEPT ![i] = p] ELSE pts

Next == \E i \in 1..N, p \in Places : Move(i, p)
Spec == Init /\ [][Next]_vars

Dist(i, P) == IF N = 1 THEN 0 ELSE Min({D(P[i], P[j]) : j \in (1..N) \ {i}})
MinDist(P) == Min({Dist(i, P) : i \in 1..N})

Never == [][MinDist(pts') >= MinDist(pts)]_vars
Strictly == [][\A i \in 1..N : pts'[i] # pts[i] => Dist(i, pts') > Dist(i, pts)]_vars
OnlyOne == [][Cardinality({i \in 1..N : pts'[i] # pts[i]}) <= 1]_vars
Inside == \A i \in 1..N : pts[i] \in Places
=============================================================================
