------------------------------ MODULE GeomMon ------------------------------
(***************************************************************************)
(* Points, groups of points, triangles, polygons and average colours.      *)
(* Fractional numbers are integers in a unit which each event has.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Props == {"C28"}
Flag(m, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = Props]

(* m.g: the groups of a history *)
GInit0(k) == [viol |-> {}, g |-> [i \in 1..k |-> <<>>]]

RECURSIVE Total(_, _)
Total(F, i) == IF i = 0 THEN 0 ELSE F[i] + Total(F, i - 1)
Abs(x) == IF x < 0 THEN -x ELSE x

Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

(* Twice the area, signed *)
Area2(P) == LET n == Len(P)
                nx(i) == IF i = n THEN 1 ELSE i + 1
            IN Total([i \in 1..n |-> (P[i][1] * P[nx(i)][2]) - (P[nx(i)][1] * P[i][2])], n)

(* The distance, in quarters of the points' unit, rounded down *)
OnDist(e) == LET k == 16 * Sq(e.a, e.b) IN e.r * e.r <= k /\ k < (e.r + 1) * (e.r + 1)

(* Coordinates as parts of 2^18 of the width and the height, rounded down; places beyond them too *)
OnNorm(e) == /\ Len(e.out) = Len(e.pts)
             /\ \A i \in 1..Len(e.pts) : /\ e.out[i][1] = (e.pts[i][1] * 262144) \div e.w
                                         /\ e.out[i][2] = (e.pts[i][2] * 262144) \div e.h

OnArea(e) == e.r = (Abs(Area2(e.pts)) + 1) \div 2

(* The triangles of a convex polygon *)
OnFan(e) == LET n == Len(e.pts)
                k == Len(e.tris)
            IN /\ k = (IF n < 3 THEN 0 ELSE n - 2)
               /\ \A i \in 1..k : Len(e.tris[i]) = 3 /\ \A j \in 1..3 : e.tris[i][j] \in {e.pts[v] : v \in 1..n}
               /\ Total([i \in 1..k |-> Abs(Area2(e.tris[i]))], k) = Abs(Area2(e.pts))

(* Colours in 256ths, each added c[i][4] times; the average in units of 1/e.u, rounded down *)
OnAvg(e) == LET k == Len(e.c)
                n == Total([i \in 1..k |-> e.c[i][4]], k)
            IN /\ e.n = n
               /\ n > 0 => \A j \in 1..3 : e.out[j] = (Total([i \in 1..k |-> e.c[i][j] * e.c[i][4]], k) * (e.u \div 256)) \div n

Clamp(x, one) == IF x < 0 THEN 0 ELSE IF x > one THEN one ELSE x

(* An edge has no direction *)
OnEdge(e) == e.r = ({e.a, e.b} = {e.c, e.d})
OnVertex(e) == e.r = (e.p \in {e.a, e.b, e.c})

(* Where the corners of an image are in relation to its super triangle *)
Turn(a, b, p) == ((b[1] - a[1]) * (p[2] - a[2])) - ((b[2] - a[2]) * (p[1] - a[1]))
OnSuper(e) == LET s == IF Turn(e.t[1], e.t[2], e.t[3]) > 0 THEN 1 ELSE -1
              IN \A p \in {<<x, y>> : x \in {0, e.w}, y \in {0, e.h}} :
                    \A i \in 1..3 : s * Turn(e.t[i], e.t[(i % 3) + 1], p) > 0

OnClamp(e) == e.r = [j \in 1..2 |-> Clamp(e.p[j], e.one)]

---------------------------------------------------------------------------
(* Histories of groups: whole groups are values. *)
OnGroup(m, e) ==
    CASE e.e = "new"   -> [m EXCEPT !.g[e.o] = e.v]
      [] e.e = "copy"  -> [m EXCEPT !.g[e.o] = m.g[e.f]]
      [] e.e = "set"   -> LET same == Len(m.g[e.o]) = Len(m.g[e.f])
                          IN Flag(IF same THEN [m EXCEPT !.g[e.o] = m.g[e.f]] ELSE m, e.ok = same)
      [] e.e = "write" -> [m EXCEPT !.g[e.o][e.i] = e.v]
      [] e.e = "read"  -> Flag(m, m.g[e.o] = e.v)

GStep(c, m, e) ==
    CASE e.e = "dist"   -> Flag(m, OnDist(e))
      [] e.e = "distsq" -> Flag(m, e.r = Sq(e.a, e.b))
      [] e.e = "sub"    -> Flag(m, e.r = <<e.a[1] - e.b[1], e.a[2] - e.b[2]>>)
      [] e.e = "norm"   -> Flag(m, OnNorm(e))
      [] e.e = "area"   -> Flag(m, OnArea(e))
      [] e.e = "fan"    -> Flag(m, OnFan(e))
      [] e.e = "avg"    -> Flag(m, OnAvg(e))
      [] e.e = "edge"   -> Flag(m, OnEdge(e))
      [] e.e = "vertex" -> Flag(m, OnVertex(e))
      [] e.e = "super"  -> Flag(m, OnSuper(e))
      [] e.e = "made"   -> Flag(m, e.out = e.in)
      [] e.e = "blank"  -> Flag(m, e.out = <<e.w, e.h>> /\ e.lit = 0)
      [] e.e = "clamp"  -> Flag(m, OnClamp(e))
      [] e.e \in {"new", "copy", "set", "write", "read"} -> OnGroup(m, e)
      [] OTHER          -> [m EXCEPT !.viol = Props]
=============================================================================
