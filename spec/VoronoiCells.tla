---------------------------- MODULE VoronoiCells ----------------------------
(***************************************************************************)
(* What it means for cells to be the Voronoi diagram of the points P       *)
(* clipped to a w x h image. A cell is [s |-> its point, v |-> its         *)
(* vertices], where vertices are in units of 1/S pixel.                    *)
(*                                                                         *)
(* Every vertex must lie in the image and be at least as near to the       *)
(* cell's point as to any other: so each cell lies in the exact one (which *)
(* is convex). The vertices go around the point in one direction, and the  *)
(* areas of all cells add up to the image's: so none is smaller than the   *)
(* exact one. All up to the rounding of coordinates (3/S pixels).          *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets

S == 1024

(* v is not nearer to q than to p *)
Nearer(v, p, q) ==
    LET dx == q[1] - p[1]
        dy == q[2] - p[2]
        a  == 2 * ((v[1] \div S) * dx + (v[2] \div S) * dy) - (q[1] * q[1] + q[2] * q[2]) + (p[1] * p[1] + p[2] * p[2])
        b  == 2 * ((v[1] % S) * dx + (v[2] % S) * dy)
    IN IF a >= 1048576 THEN FALSE
       ELSE IF a <= -1048576 THEN TRUE
       ELSE S * a + b <= 6 * (Abs(dx) + Abs(dy))

SProd(u, v) == Prod(Abs(u), IF u < 0 THEN -v ELSE v)

(* Twice the area of the triangle p a b, as digits (p in pixels)           *)
Cross(p, a, b) ==
    LET ax == a[1] - S * p[1]   ay == a[2] - S * p[2]
        bx == b[1] - S * p[1]   by == b[2] - S * p[2]
        u  == SProd(ax, by)
        t  == SProd(ay, -bx)
    IN << u[1] + t[1], u[2] + t[2], u[3] + t[3] >>

Sum3(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Neg3(a)    == << -a[1], -a[2], -a[3] >>
Zero3      == <<0, 0, 0>>
Sign3(a)   == SignOfSum3(a, Zero3, Zero3)

RECURSIVE SumSeq(_, _)
SumSeq(f, i) == IF i = 0 THEN Zero3 ELSE Sum3(f[i], SumSeq(f, i - 1))

InImage(v, w, h) == /\ v[1] >= -3 /\ v[1] <= S * w + 3
                    /\ v[2] >= -3 /\ v[2] <= S * h + 3

CrossesOf(c) == [i \in 1..Len(c.v) |-> Cross(c.s, c.v[i], c.v[IF i = Len(c.v) THEN 1 ELSE i + 1])]

(* Goes around its point in one direction *)
Around(c, w, h) ==
    LET f == CrossesOf(c)
        t == 4 * S * (w + h)
        g == Sign3(SumSeq(f, Len(f)))
    IN /\ g # 0
       /\ \A i \in 1..Len(f) : Sign3(Sum3(IF g > 0 THEN f[i] ELSE Neg3(f[i]), <<0, 0, t>>)) >= 0

AreaOf(c) == LET f == CrossesOf(c)
                 a == SumSeq(f, Len(f))
             IN IF Sign3(a) < 0 THEN Neg3(a) ELSE a

Tiled(cells, w, h) ==
    LET a == SumSeq([i \in 1..Len(cells) |-> AreaOf(cells[i])], Len(cells))
        d == Sum3(a, Neg3(Prod(S * w, 2 * S * h)))
        t == 8 * S * (w + h)
    IN /\ Sign3(Sum3(d, <<0, 0, t>>)) >= 0
       /\ Sign3(Sum3(d, <<0, 0, -t>>)) <= 0

OneEach(cells, P) == /\ Len(cells) = Cardinality(P)
                     /\ {cells[i].s : i \in 1..Len(cells)} = P

Diagram(cells, P, w, h) ==
    /\ OneEach(cells, P)
    /\ \A i \in 1..Len(cells) : LET c == cells[i] IN
          /\ Len(c.v) >= 3
          /\ \A j \in 1..Len(c.v) : /\ InImage(c.v[j], w, h)
                                    /\ \A q \in P : q # c.s => Nearer(c.v[j], c.s, q)
          /\ Around(c, w, h)
    /\ P # {} => Tiled(cells, w, h)
=============================================================================
