----------------------------- MODULE OneShotMon -----------------------------
(***************************************************************************)
(* One-shot triangulation and polygonation: functions of a point group and *)
(* the dimensions of the image.  Points are <<i, j>> for the normalised    *)
(* point (i/4096, j/4096); their place in the image is computed here.      *)
(***************************************************************************)
EXTENDS VoronoiCells, FiniteSetsExt, TLC

Props == {"C15", "C16"}

Init0(k) == [viol |-> {}]

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

(* i/4096 * w rounded to the nearest integer, halves up *)
Place(i, w) == (2 * i * w + 4096) \div 8192
Placed(pts, w, h) == {<<Place(pts[k][1], w), Place(pts[k][2], h)>> : k \in 1..Len(pts)}

---------------------------------------------------------------------------
(* Triangulation.  Every triangle's circumcircle is empty, no two triangles *)
(* have the same directed edge, and edges without a counterpart have all    *)
(* points on one side: so the number of triangles that cover a location     *)
(* changes only, by one, at the boundary of the convex hull (a point on     *)
(* such an edge would lie inside a circumcircle).                           *)

AllCollinear(P) == LET a == CHOOSE p \in P : TRUE
                       b == CHOOSE q \in P : q # a \/ P = {a}
                   IN \A q \in P : Orient(a, b, q) = 0

CCW(t) == IF Orient(t[1], t[2], t[3]) > 0 THEN t ELSE <<t[1], t[3], t[2]>>
EdgesOf(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}

HullTriangulation(R, P) ==
    /\ \A i \in 1..Len(R) : R[i][1] \in P /\ R[i][2] \in P /\ R[i][3] \in P
    /\ \A i \in 1..Len(R) : Orient(R[i][1], R[i][2], R[i][3]) # 0
    /\ R # <<>>
    /\ LET T == {CCW(R[i]) : i \in 1..Len(R)}
           E == UNION {EdgesOf(t) : t \in T}
       IN /\ Cardinality(T) = Len(R)
          /\ Cardinality(E) = 3 * Len(R)
          /\ \A e \in E : <<e[2], e[1]>> \notin E => \A p \in P : Orient(e[1], e[2], p) >= 0
          /\ \A t \in T : \A p \in P : p # t[1] /\ p # t[2] /\ p # t[3] => InCircle(t[1], t[2], t[3], p) <= 0

(* The same for many triangles.  V are the points that occur, W the         *)
(* triangles' vertices (as places in V, counterclockwise) and, for each     *)
(* edge, one that has it in the other direction (0: it's said that there is *)
(* none; then it must be one of the hull).  Neighbours match edge by edge   *)
(* and the hull's edges occur once each, so every location of the hull is   *)
(* covered once; and if no vertex opposite to a common edge is inside the   *)
(* circumcircle, no point is inside any (Delaunay's lemma).                 *)
After(k) == (k % 3) + 1
Across(k) == ((k + 1) % 3) + 1

LocallyDelaunay(V, W, P) ==
    /\ W # <<>>
    /\ {V[i] : i \in 1..Len(V)} = P /\ Len(V) = Cardinality(P)
    /\ \A t \in 1..Len(W) :
         /\ Orient(V[W[t][1]], V[W[t][2]], V[W[t][3]]) > 0
         /\ \A k \in 1..3 :
              LET u == W[t][k + 3]
                  a == W[t][k]
                  b == W[t][After(k)]
              IN IF u = 0 THEN \A i \in 1..Len(V) : Orient(V[a], V[b], V[i]) >= 0
                 ELSE \E j \in 1..3 :
                        /\ W[u][j] = b /\ W[u][After(j)] = a /\ W[u][j + 3] = t
                        /\ InCircle(V[W[t][1]], V[W[t][2]], V[W[t][3]], V[W[u][Across(j)]]) <= 0
    /\ LET B == {<<t, k>> \in (1..Len(W)) \X (1..3) : W[t][k + 3] = 0}
       IN Cardinality({<<W[x[1]][x[2]], W[x[1]][After(x[2])]>> : x \in B}) = Cardinality(B)
    /\ UNION {{W[t][1], W[t][2], W[t][3]} : t \in 1..Len(W)} = 1..Len(V)

TriangulationOK(e) ==
    LET P == Placed(e.pts, e.w, e.h)
    IN IF e.e = "trib" THEN ~AllCollinear(P) /\ LocallyDelaunay(e.V, e.W, P)
       ELSE IF P = {} \/ AllCollinear(P) THEN e.R = <<>>
       ELSE HullTriangulation(e.R, P)

---------------------------------------------------------------------------
(* Polygonation.  The cells come with the exact ones, as computed by the   *)
(* harness; they are checked first.                                        *)

Rounds(v, r) == Abs(v[1] - S * r[1]) <= S \div 2 + 4 /\ Abs(v[2] - S * r[2]) <= S \div 2 + 4

(* The vertices p are those of the cell v in order, each rounded, and one  *)
(* for any number of successive vertices that round to the same            *)
Follows(v, p) ==
    LET n == Len(v)
        k == Len(p)
        RECURSIVE Close(_, _)
        Close(u, J) == LET K == J \cup {j + 1 : j \in {i \in J : i < k /\ Rounds(u, p[i + 1])}}
                       IN IF K = J THEN J ELSE Close(u, K)
        U(s, d, i)  == v[((s - 1 + d * (i - 1)) % n) + 1]
        RECURSIVE Reach(_, _, _)
        Reach(s, d, i) ==
            IF i = 1 THEN IF Rounds(v[s], p[1]) THEN Close(v[s], {1}) ELSE {}
            ELSE LET J == Reach(s, d, i - 1)
                     u == U(s, d, i)
                 IN Close(u, {j \in J : Rounds(u, p[j])} \cup {j + 1 : j \in {x \in J : x < k /\ Rounds(u, p[x + 1])}})
    IN \E s \in 1..n : \E d \in {1, n - 1} :
         /\ Rounds(v[s], p[1])
         /\ k \in Reach(s, d, n) \/ k \in Reach(s, d, n + 1)

PolygonationOK(e) ==
    LET P    == Placed(e.pts, e.w, e.h)
        cell == [q \in P |-> LET i == CHOOSE i \in 1..Len(e.cells) : e.cells[i].s = q IN e.cells[i].v]
        w    == Assert(Diagram(e.cells, P, e.w, e.h), <<"the harness's cells are wrong", e>>)
    IN w /\ /\ OneEach(e.polys, P)
            /\ \A i \in 1..Len(e.polys) : LET c == e.polys[i] IN
                 /\ Len(c.v) > 0
                 /\ \A j \in 1..Len(c.v) : c.v[j][1] \in 0..e.w /\ c.v[j][2] \in 0..e.h
                 /\ \A j \in 1..Len(c.v) - 1 : c.v[j] # c.v[j + 1]
                 /\ Follows(cell[c.s], c.v)

Step(c, m, e) ==
    CASE e.e \in {"tri", "trib"} -> Flag(m, "C16", TriangulationOK(e))
      [] e.e = "poly" -> Flag(m, "C15", PolygonationOK(e))
      [] OTHER        -> [m EXCEPT !.viol = Props]
=============================================================================
