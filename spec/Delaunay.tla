------------------------------ MODULE Delaunay ------------------------------
(***************************************************************************)
(* Design of the incremental triangulation: a bag of points and a set of   *)
(* triangles over them and the vertices of the super triangle.             *)
(*                                                                         *)
(* Insert removes the triangles whose circumcircles contain the point and  *)
(* connects the edges around the hole to it (Bowyer-Watson).  A triangle   *)
(* whose circumcircle goes through the point may or may not be removed, as *)
(* floating-point numbers decide, as long as the hole can be seen from the *)
(* point.  Remove fills the hole ear by ear, each time one with the lowest *)
(* score (Devillers), whichever on ties.                                   *)
(*                                                                         *)
(* Every reachable triangulation must be a Delaunay triangulation of all   *)
(* current points and the super triangle.                                  *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, FiniteSetsExt, TLC

CONSTANTS W, H,          \* the image
          MaxPts,        \* distinct points
          MaxCopies,     \* copies of a point
          Step,          \* coordinates are multiples of it
          Bug            \* "none", "nodup", "anyear", "allties"

VARIABLES bag, tris
vars == <<bag, tris>>

Points == {<<x, y>> : x \in {i \in 0..W : i % Step = 0}, y \in {i \in 0..H : i % Step = 0}}

Long == IF W > H THEN W ELSE H
Up(a) == (a + 1) \div 2
SA == <<(W \div 2) - 2 * Long, (H \div 2) - Long>>
SB == <<Up(W), Up(H) + 2 * Long>>
SC == <<Up(W) + 2 * Long, (H \div 2) - Long>>
Super == {SA, SB, SC}

(* Triangles are counterclockwise, least vertex first *)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Norm(a, b, c) ==
    LET t == IF Orient(a, b, c) > 0 THEN <<a, b, c>> ELSE <<a, c, b>>
    IN CASE Less(t[1], t[2]) /\ Less(t[1], t[3]) -> t
         [] Less(t[2], t[1]) /\ Less(t[2], t[3]) -> <<t[2], t[3], t[1]>>
         [] OTHER -> <<t[3], t[1], t[2]>>
Edges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Has(t, p) == t[1] = p \/ t[2] = p \/ t[3] = p
In(t, p)  == InCircle(t[1], t[2], t[3], p)

Start == {Norm(SA, SB, SC)}

Init == bag = [p \in {} |-> 0] /\ tris = Start

---------------------------------------------------------------------------
(* Directed edges of the triangles that have no counterpart *)
Boundary(C) == LET E == UNION {Edges(t) : t \in C}
               IN {e \in E : <<e[2], e[1]>> \notin E}

Cavities(T, p) ==
    LET must == {t \in T : ~Has(t, p) /\ In(t, p) > 0}
        may  == {t \in T : In(t, p) = 0}
    IN {must \cup D : D \in SUBSET may}

(* Edges that are collinear with the point are skipped, as in the code *)
Fill(T, C, p) == (T \ C) \cup {Norm(e[1], e[2], p) : e \in {f \in Boundary(C) : Orient(f[1], f[2], p) # 0}}

Sees(C, p) == \A e \in Boundary(C) : Orient(e[1], e[2], p) > 0

Insert(p) ==
    /\ IF p \in DOMAIN bag
       THEN /\ bag[p] < MaxCopies
            /\ bag' = [bag EXCEPT ![p] = @ + 1]
            /\ UNCHANGED tris
       ELSE /\ Cardinality(DOMAIN bag) < MaxPts
            /\ bag' = bag @@ (p :> 1)
            /\ \E C \in Cavities(tris, p) : /\ Bug = "allties" \/ Sees(C, p)
                                            /\ tris' = Fill(tris, C, p)

---------------------------------------------------------------------------
(* The score of the ear a b c: the power of p to its circumcircle, for     *)
(* counterclockwise ears. Small coordinates only.                          *)
InVal(a, b, c, d) ==
    LET ax == a[1] - d[1]   ay == a[2] - d[2]
        bx == b[1] - d[1]   by == b[2] - d[2]
        cx == c[1] - d[1]   cy == c[2] - d[2]
    IN (ax * ax + ay * ay) * (bx * cy - cx * by) + (bx * bx + by * by) * (cx * ay - ax * cy)
         + (cx * cx + cy * cy) * (ax * by - bx * ay)

Next1(i, n) == (i % n) + 1
Ear(h, i)   == LET n == Len(h) IN <<h[i], h[Next1(i, n)], h[Next1(Next1(i, n), n)]>>
Valid(e)    == Orient(e[1], e[2], e[3]) > 0
\* InVal / Orient: the larger it is, the further p is inside
Closer(e, f, p) == SgnCmp(InVal(e[1], e[2], e[3], p), Orient(f[1], f[2], f[3]),
                          InVal(f[1], f[2], f[3], p), Orient(e[1], e[2], e[3])) <= 0

Best(h, p) == LET V == {i \in 1..Len(h) : Valid(Ear(h, i))}
              IN IF Bug = "anyear" THEN V
                 ELSE {i \in V : \A j \in V : Closer(Ear(h, i), Ear(h, j), p)}

Drop(h, i) == SubSeq(h, 1, i - 1) \o SubSeq(h, i + 1, Len(h))

RECURSIVE Fillings(_, _)
Fillings(h, p) ==
    IF Len(h) = 3 THEN {{Norm(h[1], h[2], h[3])}}
    ELSE UNION {LET e == Ear(h, i)
                IN {F \cup {Norm(e[1], e[2], e[3])} : F \in Fillings(Drop(h, Next1(i, Len(h))), p)} : i \in Best(h, p)}

(* The hole's vertices in order *)
RECURSIVE Walk(_, _, _)
Walk(E, v, n) == IF n = 0 THEN <<>>
                 ELSE <<v>> \o Walk(E, (CHOOSE e \in E : e[1] = v)[2], n - 1)

Remove(p) ==
    /\ p \in DOMAIN bag
    /\ IF bag[p] > 1 /\ Bug # "nodup"
       THEN bag' = [bag EXCEPT ![p] = @ - 1] /\ UNCHANGED tris
       ELSE /\ bag' = IF bag[p] > 1 THEN [bag EXCEPT ![p] = @ - 1] ELSE [q \in DOMAIN bag \ {p} |-> bag[q]]
            /\ LET C == {t \in tris : Has(t, p)}
                   E == Boundary(C)
                   e == CHOOSE e \in E : TRUE
               IN \E F \in Fillings(Walk(E, e[1], Cardinality(E)), p) : tris' = (tris \ C) \cup F

Next == \E p \in Points : Insert(p) \/ Remove(p)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What the triangulation guarantees *)

Vertices == UNION {{t[1], t[2], t[3]} : t \in tris}

Complete ==
    LET E == UNION {Edges(t) : t \in tris} IN
    /\ \A t \in tris : Orient(t[1], t[2], t[3]) > 0
    /\ Cardinality(E) = 3 * Cardinality(tris)
    /\ Boundary(tris) = Edges(Norm(SA, SB, SC))
    /\ Vertices = DOMAIN bag \cup Super

EmptyCircles == \A t \in tris : \A q \in DOMAIN bag \cup Super : ~Has(t, q) => In(t, q) <= 0

(* There is always a way to go on *)
Insertable == \A p \in Points : p \notin DOMAIN bag => \E C \in Cavities(tris, p) : Sees(C, p)

(* The vertices of the super triangle are never a point, and never nearer to one than the others *)
SuperFar == /\ Super \cap Points = {}
            /\ \A p, q \in Points : \A s \in Super : DistSq(p, q) < DistSq(p, s)

(* Half of what queries rely on: every point is a vertex of some triangle *)
EveryPointHasATriangle == \A p \in DOMAIN bag : \E t \in tris : Has(t, p)
=============================================================================
