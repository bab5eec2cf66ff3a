----------------------------- MODULE RasterMesh -----------------------------
(* The pixels of triangles (as in Raster.tla) fit together: two triangles   *)
(* on either side of an edge share none, and the two triangulations of a    *)
(* convex quadrangle cover the same pixels, so there are no gaps.           *)
EXTENDS Integers, FiniteSets

CONSTANTS G

VARIABLES a, b, c, d

Pts == (0..G) \X (0..G)
Orient(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (r[1] - p[1]) * (q[2] - p[2])

Crossing(p, q, y) == (p[1] * (q[2] - p[2]) + (q[1] - p[1]) * (y - p[2])) \div (q[2] - p[2])
HasRow(p, q, y)   == p[2] <= y /\ y < q[2]
Crossings(p, q, r, y) == {Crossing(e[1], e[2], y) : e \in {f \in {<<p, q>>, <<q, p>>, <<q, r>>, <<r, q>>, <<r, p>>, <<p, r>>} : HasRow(f[1], f[2], y)}}
Pixels(p, q, r) == {z \in (0..G) \X (0..G) :
                       LET C == Crossings(p, q, r, z[2])
                       IN \E s, t \in C : s <= z[1] /\ z[1] < t}

Init == a \in Pts /\ b \in Pts /\ c \in Pts /\ d \in Pts /\ Orient(a, b, c) > 0 /\ Orient(a, b, d) < 0
Spec == Init /\ [][FALSE]_<<a, b, c, d>>

Disjoint == Pixels(a, b, c) \cap Pixels(a, b, d) = {}
Flip == Orient(c, d, a) > 0 /\ Orient(c, d, b) < 0 =>
            Pixels(a, b, c) \cup Pixels(a, b, d) = Pixels(c, d, a) \cup Pixels(c, d, b)
Full == Pixels(<<0, 0>>, <<G, 0>>, <<G, G>>) \cup Pixels(<<0, 0>>, <<0, G>>, <<G, G>>) = (0..(G-1)) \X (0..(G-1))
InBox == \A z \in Pixels(a, b, c) : /\ \E p \in {a, b, c} : p[1] <= z[1]
                                    /\ \E p \in {a, b, c} : p[1] > z[1]
                                    /\ \E p \in {a, b, c} : p[2] <= z[2]
                                    /\ \E p \in {a, b, c} : p[2] > z[2]
=============================================================================
