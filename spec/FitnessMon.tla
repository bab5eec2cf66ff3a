----------------------------- MODULE FitnessMon -----------------------------
(***************************************************************************)
(* The built-in fitness functions.  The slots of a population hold the     *)
(* points that were evaluated last (in units of 1/4096 of the image's      *)
(* size); an evaluation either starts from given points, or from those of  *)
(* a base with some of them replaced, or is one of the same points again.  *)
(*                                                                         *)
(* The value of an evaluation depends on the points alone: D, the sum of   *)
(* the squared deviations of the colours in the pixels of each shape from  *)
(* their mean, plus, for triangles, the largest difference for each unit   *)
(* of area without a triangle.  D is measured such that c.unit is the      *)
(* largest value of a colour.                                              *)
(*                                                                         *)
(* Recorded are the values in several worlds, which differ in the size of  *)
(* their cache (d), and those of new functions, for several block sizes    *)
(* (s).  The triangles are those of the witness of a triangulation; if     *)
(* it's not the only one, only values of the same triangulation are        *)
(* compared.                                                               *)
(***************************************************************************)
EXTENDS DelaunayMon, SequencesExt

FProps == {"C07", "C08", "C10"}

FInit0(k) == [pts |-> [i \in 1..k |-> <<>>], viol |-> {}]

Place(i, w) == (2 * i * w + 4096) \div 8192
Placed(pts, c) == {<<Place(pts[k][1], c.w), Place(pts[k][2], c.h)>> : k \in 1..Len(pts)}

Replaced(pts, u) == [i \in 1..Len(pts) |->
                       IF \E k \in 1..Len(u) : u[k][1] = i
                       THEN LET k == CHOOSE k \in 1..Len(u) : u[k][1] = i IN <<u[k][2], u[k][3]>>
                       ELSE <<pts[i][1], pts[i][2]>>]

---------------------------------------------------------------------------
(* Sums of a shape's pixels: their number, the sums of the colours, and of *)
(* their squares                                                           *)
AddPixel(acc, p, mul) ==
    LET r == (p \div 65536) * mul
        g == ((p \div 256) % 256) * mul
        b == (p % 256) * mul
    IN <<acc[1] + 1, acc[2] + r, acc[3] + g, acc[4] + b, acc[5] + r * r + g * g + b * b>>

AddLine(acc, l, c) == IF l[1] >= l[2] THEN acc
                      ELSE FoldLeft(LAMBDA x, p : AddPixel(x, p, c.mul), acc, SubSeq(c.img[l[3] + 1], l[1] + 1, l[2]))

Sums(sh, c) == FoldLeft(LAMBDA x, l : AddLine(x, l, c), <<0, 0, 0, 0, 0>>, sh.l)

(* s * s / n, rounded down *)
SquareBy(s, n) == LET q == s \div n
                      r == s % n
                  IN q * q * n + 2 * q * r + ((r * r) \div n)

Deviation(sh, c) == LET s == Sums(sh, c)
                    IN IF s[1] = 0 THEN 0
                       ELSE s[5] - SquareBy(s[2], s[1]) - SquareBy(s[3], s[1]) - SquareBy(s[4], s[1])

Twice(v) == LET a == Orient(v[1], v[2], v[3]) IN IF a < 0 THEN -a ELSE a

(* Twice the area without a triangle *)
Blank2(sh, c) == IF c.poly THEN 0 ELSE FoldLeft(LAMBDA x, t : x - Twice(t.v), 2 * c.w * c.h, sh)

Difference(sh, c) == FoldLeft(LAMBDA x, t : x + Deviation(t, c), 0, sh)
                     + LET m == 3 * c.unit * c.unit
                           b == Blank2(sh, c)
                       IN m * (b \div 2) + (m * (b % 2)) \div 2

Drawn(sh, c) == FoldLeft(LAMBDA x, t : x + Sums(t, c)[1], 0, sh)

(* Deviation is up to 3 too large; the square of each pixel is rounded down *)
Near(d, D, sh, c) == /\ d <= D + 1
                     /\ d >= D - 1 - 3 * Len(sh) - (IF c.unit = 255 THEN Drawn(sh, c) ELSE 0)

Equal(d, e) == Abs(d - e) <= 1
AllEqual(s) == \A i \in 1..Len(s) : Equal(s[i], s[1])

---------------------------------------------------------------------------
(* The lines of the shapes are those within their rows and the image       *)
InPicture(sh, c) == \A i \in 1..Len(sh) : \A j \in 1..Len(sh[i].l) :
                       LET l == sh[i].l[j] IN l[1] >= l[2] \/ (l[1] >= 0 /\ l[2] <= c.w /\ l[3] \in 0..(c.h - 1))

TrianglesOf(e) == {{e.V[t[k]] : k \in 1..3} : t \in {e.W[i] : i \in {j \in 1..Len(e.W) : e.W[j][1] > 3 /\ e.W[j][2] > 3 /\ e.W[j][3] > 3}}}

OnCalc(c, m, e) ==
    LET pts == [i \in 1..Len(e.pts) |-> <<e.pts[i][1], e.pts[i][2]>>]
        \* the functions were told what became of the points
        fol == IF e.b > 0 THEN Len(m.pts[e.b]) = Len(pts) /\ pts = Replaced(m.pts[e.b], e.u)
               ELSE m.pts[e.m] # <<>> => pts = m.pts[e.m]
        w1  == Assert((c.algo \/ fol) /\ InPicture(e.sh, c), <<"the harness's history is wrong", e>>)
        w2  == c.poly \/ Assert(ValidWitness(e.V, e.W, Placed(pts, c)), <<"the harness's witness is wrong", e>>)
        one == IF c.poly THEN ~e.odd ELSE Unique(e.V, e.W)
        w3  == (c.poly \/ ~one) \/
               Assert(/\ {{t.v[1], t.v[2], t.v[3]} : t \in {e.sh[i] : i \in 1..Len(e.sh)}} = TrianglesOf(e)
                      /\ Len(e.sh) = Cardinality(TrianglesOf(e)), <<"the harness's triangles are wrong", e>>)
        D   == Difference(e.sh, c)
        m1  == Flag(m, "C10", /\ AllEqual(e.s)
                              /\ one => \A i \in 1..Len(e.s) : Near(e.s[i], D, e.sh, c))
        m2  == Flag(m1, "C08", AllEqual(e.d))
        m3  == Flag(m2, "C07", /\ fol
                               /\ one /\ Len(e.d) > 0 => Equal(e.d[1], e.s[1]) /\ Near(e.d[1], D, e.sh, c))
    IN [m3 EXCEPT !.pts[e.m] = IF w1 /\ w2 /\ w3 THEN pts ELSE <<>>]

FStep(c, m, e) ==
    CASE e.e = "calc" -> OnCalc(c, m, e)
      [] e.e = "swap" -> [m EXCEPT !.pts[e.m] = m.pts[e.b], !.pts[e.b] = m.pts[e.m]]
      \* an image of one colour: shapes that cover it differ by nothing
      [] e.e = "flat" -> Flag(m, "C10", \A i \in 1..Len(e.s) : Equal(e.s[i], 0))
      [] OTHER        -> [m EXCEPT !.viol = FProps]
=============================================================================
