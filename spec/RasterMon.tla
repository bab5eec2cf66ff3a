----------------------------- MODULE RasterMon -----------------------------
(***************************************************************************)
(* What rasterising covers.  A row is the sequence of the intervals        *)
(* <<x0, x1>> (x0 <= x < x1) drawn in it; two rows cover the same pixels,  *)
(* each as often, iff for every x equally many more intervals start than   *)
(* end there.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Props == {"C17", "C18"}

Init0(k) == [viol |-> {}]

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

---------------------------------------------------------------------------
(* Rows: L is a sequence of <<x0, x1, y>>, B one of corners <<x, y>> of     *)
(* blocks of bs x bs pixels                                                 *)
RowL(L, y)     == SelectSeq(L, LAMBDA l : l[3] = y /\ l[1] < l[2])
RowB(B, bs, y) == LET S == SelectSeq(B, LAMBDA b : b[2] <= y /\ y < b[2] + bs)
                  IN [i \in 1..Len(S) |-> <<S[i][1], S[i][1] + bs, y>>]

Ends(R)   == UNION {{R[i][1], R[i][2]} : i \in 1..Len(R)}
Net(R, x) == Cardinality({i \in 1..Len(R) : R[i][1] = x}) - Cardinality({i \in 1..Len(R) : R[i][2] = x})
Same(R, T) == \A x \in Ends(R) \cup Ends(T) : Net(R, x) = Net(T, x)

(* The rows that anything is drawn in *)
Ys(L, B, bs) == {L[i][3] : i \in 1..Len(L)} \cup UNION {B[i][2]..(B[i][2] + bs - 1) : i \in 1..Len(B)}

SameCover(L1, L2, B, bs) == \A y \in Ys(L1, <<>>, 1) \cup Ys(L2, B, bs) :
                               Same(RowL(L1, y), RowL(L2, y) \o RowB(B, bs, y))

---------------------------------------------------------------------------
(* The exact pixels of a triangle: in each row between the top and the     *)
(* bottom vertex, from the left edge to the right one, truncated to whole  *)
(* pixels.  Where an edge crosses a row exactly at a pixel's corner,       *)
(* floating-point numbers may put it just before.                          *)

SortedY(p) == SortSeq(p, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))

Num(a, b, y) == a[1] * (b[2] - a[2]) + (b[1] - a[1]) * (y - a[2])     \* the crossing is Num / (b.y - a.y)
Cols(a, b, y) ==
    LET n == Num(a, b, y)
        d == b[2] - a[2]
        f == n \div d
    IN IF n % d = 0 /\ f > 0 /\ y # a[2] /\ a[1] # b[1] THEN {f - 1, f} ELSE {f}

RowOK(p, y, R) ==
    LET s  == SortedY(p)
        lo == IF y < s[2][2] THEN <<s[1], s[2]>> ELSE <<s[2], s[3]>>    \* the short edge in this row
        hi == <<s[1], s[3]>>
        n1 == Num(lo[1], lo[2], y) * (hi[2][2] - hi[1][2])
        n2 == Num(hi[1], hi[2], y) * (lo[2][2] - lo[1][2])
    IN IF y < s[1][2] \/ y >= s[3][2] THEN R = <<>>
       ELSE IF n1 = n2 THEN R = <<>>
       ELSE LET left  == IF n1 < n2 THEN lo ELSE hi
                right == IF n1 < n2 THEN hi ELSE lo
            IN \E l \in Cols(left[1], left[2], y) : \E r \in Cols(right[1], right[2], y) :
                  Same(R, IF l < r THEN <<<<l, r, y>>>> ELSE <<>>)

MinY(p) == SortedY(p)[1][2]
MaxY(p) == SortedY(p)[3][2]

ExactCover(p, L) == \A y \in Ys(L, <<>>, 1) \cup MinY(p)..MaxY(p) : RowOK(p, y, RowL(L, y))

---------------------------------------------------------------------------
(* The triangles of a triangulation: at most once, or, where they cover    *)
(* the whole image, exactly once.                                          *)
Once(R) == \A i, j \in 1..Len(R) : i < j => R[i][2] <= R[j][1] \/ R[j][2] <= R[i][1]

MeshOK(e) ==
    LET L == FlattenSeq(e.l) IN
    /\ \A y \in Ys(L, <<>>, 1) : LET R == RowL(L, y) IN
          /\ Once(R)
          /\ \A i \in 1..Len(R) : R[i][1] >= 0 /\ R[i][2] <= e.w
          /\ y \in 0..(e.h - 1) \/ R = <<>>
    /\ e.full => \A y \in 0..(e.h - 1) : Same(RowL(L, y), <<<<0, e.w, y>>>>)

---------------------------------------------------------------------------
OnTri(m, e) ==
    LET m1 == Flag(m, "C18", ExactCover(e.p, e.l) /\ ExactCover(e.p, e.pix))
        m2 == Flag(m1, "C17", SameCover(e.l, e.pix, <<>>, 1))
    IN Flag(m2, "C17", \A i \in 1..Len(e.blk) : SameCover(e.l, e.blk[i].l, e.blk[i].b, e.blk[i].bs))

OnPoly(m, e) ==
    LET m1 == Flag(m, "C17", SameCover(e.l, e.pix, <<>>, 1))
    IN Flag(m1, "C17", \A i \in 1..Len(e.blk) : SameCover(e.l, e.blk[i].l, e.blk[i].b, e.blk[i].bs))

Step(c, m, e) ==
    CASE e.e = "tri"  -> OnTri(m, e)
      [] e.e = "poly" -> OnPoly(m, e)
      [] e.e = "mesh" -> Flag(m, "C18", MeshOK(e))
      [] OTHER        -> [m EXCEPT !.viol = Props]
=============================================================================
