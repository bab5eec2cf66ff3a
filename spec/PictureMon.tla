----------------------------- MODULE PictureMon -----------------------------
(***************************************************************************)
(* The whole of it: an algorithm optimises points for an image, its best   *)
(* points are made into shapes, and these are rendered.  The fitness       *)
(* that the algorithm reports for the points is the quality of the         *)
(* picture: its squared difference to the image, in which triangles leave  *)
(* the largest difference for each unit of area they don't cover.          *)
(*                                                                         *)
(* An event has the placed points pts, the shapes sh made from them (with  *)
(* the lines l that rasterising each triangle of their fans draws), what   *)
(* was rendered (out, as in RenderMon) and the difference d that the       *)
(* reported fitness stands for (as in FitnessMon).  For triangles, V and W *)
(* witness which triangulation the points have; if it isn't the only one,  *)
(* that of the algorithm may be another.                                   *)
(*                                                                         *)
(* The picture consists of all triangles up to the convex hull.  Slivers   *)
(* along the hull with a circumcircle that reaches a vertex of the super   *)
(* triangle don't count in the fitness, as if nothing was drawn there.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

R == INSTANCE RenderMon
F == INSTANCE FitnessMon

PProps == {"C24"}
PInit0(k) == [viol |-> {}, last |-> <<>>]

(* The shapes as FitnessMon has them: all lines in one sequence *)
Flat(sh) == [i \in 1..Len(sh) |-> [v |-> sh[i].v, l |-> FlattenSeq(sh[i].l)]]

Rendered(c, e) ==
    /\ Len(e.out) = Len(e.sh)
    /\ \A i \in 1..Len(e.sh) : R!Covers(e.sh[i], c) /\ R!ShapeOK(e.sh[i], e.out[i], c)

One(c, e) ==
    IF c.poly THEN ~e.odd
    ELSE /\ Assert(F!ValidWitness(e.V, e.W, {<<e.pts[i][1], e.pts[i][2]>> : i \in 1..Len(e.pts)}), "the harness's witness is wrong")
         /\ F!Unique(e.V, e.W)

Corners(t) == {t.v[1], t.v[2], t.v[3]}

(* Whether the circumcircle of triangle v reaches the super triangle *)
Reaches(v, e) == \E i \in 1..3 : IF F!Orient(v[1], v[2], v[3]) > 0 THEN F!InCircle(v[1], v[2], v[3], e.V[i]) >= 0
                                 ELSE F!InCircle(v[2], v[1], v[3], e.V[i]) >= 0

(* The shapes that the fitness is about *)
Counted(c, e, f) ==
    IF c.poly THEN f
    ELSE LET T == F!TrianglesOf(e) IN SelectSeq(f, LAMBDA t : Corners(t) \in T)

(* The shapes are those of the points: one for each distinct point, or the triangulation *)
Shapes(c, e, f) ==
    IF c.poly THEN Len(e.sh) = Cardinality({e.pts[i] : i \in 1..Len(e.pts)})
    ELSE /\ Cardinality({Corners(f[i]) : i \in 1..Len(f)}) = Len(f)
         /\ One(c, e) => LET T == F!TrianglesOf(e) IN
                         /\ T \subseteq {Corners(f[i]) : i \in 1..Len(f)}
                         /\ \A i \in 1..Len(f) : Corners(f[i]) \in T \/ Reaches(f[i].v, e)

Shown(c, m, e) ==
    LET f == Flat(e.sh)
        g == Counted(c, e, f)
        ok == /\ Len(e.pts) = c.n
              /\ Shapes(c, e, f)
              /\ Rendered(c, e)
              /\ One(c, e) => F!Near(e.d, F!Difference(g, c), g, c)
              \* generations never make it worse
              /\ m.last # <<>> => e.d <= m.last[1] + 1
    IN [m EXCEPT !.last = <<e.d>>, !.viol = IF ok THEN @ ELSE PProps]

PStep(c, m, e) ==
    CASE e.e = "shown" -> Shown(c, m, e)
      [] OTHER         -> [m EXCEPT !.viol = PProps]
=============================================================================
