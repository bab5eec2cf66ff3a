----------------------------- MODULE LocalHull -----------------------------
(***************************************************************************)
(* For every set of up to Most points of a small lattice and every set of  *)
(* triangles with these vertices: the quick test of large triangulations   *)
(* (OneShotMon!LocallyDelaunay) gives the same answer as the definition.   *)
(***************************************************************************)
EXTENDS OneShotMon, SequencesExt

CONSTANTS Wd, Ht, Most, Bug    \* Bug: "none", "all" (every set of triangles is right)

VARIABLES P, T
vars == <<P, T>>

Lattice == (0..Wd) \X (0..Ht)
TrianglesOf(Q) == {s \in SUBSET Q : Cardinality(s) = 3}

Init == /\ P \in {Q \in SUBSET Lattice : Cardinality(Q) \in 3..Most}
        /\ T = {}
(* One triangle after the other, in an order of their own *)
Code(s) == LET RECURSIVE Total(_) Total(u) == IF u = {} THEN 0 ELSE LET p == CHOOSE p \in u : TRUE IN 2 ^ (p[1] * (Ht + 1) + p[2]) + Total(u \ {p}) IN Total(s)
Next == /\ \E s \in TrianglesOf(P) : (\A t \in T : Code(t) < Code(s)) /\ T' = T \cup {s}
        /\ UNCHANGED P
Spec == Init /\ [][Next]_vars

R == LET q == SetToSeq(T) IN [i \in 1..Len(q) |-> SetToSeq(q[i])]
V == SetToSeq(P)
At(p) == CHOOSE i \in 1..Len(V) : V[i] = p
W6 == LET C == [i \in 1..Len(R) |-> CCW(R[i])]
      IN [i \in 1..Len(R) |-> [x \in 1..6 |->
            IF x <= 3 THEN At(C[i][x])
            ELSE LET k == x - 3
                     J == {j \in 1..Len(R) : <<C[i][After(k)], C[i][k]>> \in EdgesOf(C[j])}
                 IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE]]

Same == ~AllCollinear(P) => (LocallyDelaunay(V, W6, P) = (HullTriangulation(R, P) \/ (Bug = "all" /\ R # <<>>)))
===========================================================================
