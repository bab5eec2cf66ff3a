------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Design of the block rasteriser, over exact rationals: a triangle is     *)
(* drawn in strips of bs rows away from the row of its middle vertex, each *)
(* strip as whole blocks in the middle and lines on both sides, until it   *)
(* is too narrow; the rest line by line.  The pixels it must draw, each    *)
(* once, are given by the edges alone.                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS G,        \* vertices have coordinates in 0..G
          MaxBS,    \* block sizes 1..MaxBS
          Bug       \* "none", "onlybottom", "noguard", "rowtwice"

VARIABLES v,        \* v[1], v[2], v[3]: sorted by descending y, as in the code
          bs, ph, i, drawn, twice
vars == <<v, bs, ph, i, drawn, twice>>

Pts == (0..G) \X (0..G)
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])

(* The code's sorting network *)
Sorted(p, q, r) ==
    LET s1 == IF q[2] > p[2] THEN <<q, p, r>> ELSE <<p, q, r>>
        s2 == IF s1[3][2] > s1[2][2]
              THEN LET t == <<s1[1], s1[3], s1[2]>>
                   IN IF t[2][2] > t[1][2] THEN <<t[2], t[1], t[3]>> ELSE t
              ELSE s1
    IN s2

---------------------------------------------------------------------------
(* Rationals <<n, d>> with d >= 0; <<n, 0>> is infinite *)
Ratio(n, d) == IF d < 0 THEN <<-n, -d>> ELSE IF d = 0 THEN <<IF n > 0 THEN 1 ELSE -1, 0>> ELSE <<n, d>>
Lt(a, b)    == a[1] * b[2] < b[1] * a[2]
Whole(n)    == <<n, 1>>
Trunc(a)    == IF a[1] < 0 THEN -((-a[1]) \div a[2]) ELSE a[1] \div a[2]
At(m, k, b) == <<m[1] * k + b * m[2], m[2]>>
MaxR(a, b)  == IF Lt(a, b) THEN b ELSE a
MinR(a, b)  == IF Lt(a, b) THEN a ELSE b

X(k) == v[k][1]
Y(k) == v[k][2]

---------------------------------------------------------------------------
(* The upper half: both lines start from the top vertex v[3] *)
UpA   == Ratio(X(3) - X(1), Y(3) - Y(1))
UpB   == Ratio(X(3) - X(2), Y(3) - Y(2))
Swap  == Lt(UpB, UpA)
Up0   == IF Swap THEN UpB ELSE UpA
Up1   == IF Swap THEN UpA ELSE UpB

(* The lower half: one line goes on, the other starts from v[2] *)
Low   == Ratio(X(2) - X(1), Y(2) - Y(1))
Flat  == Y(2) = Y(3)
Dn0   == IF Swap THEN Low ELSE Up0
Dn1   == IF Swap THEN Up1 ELSE Low
M0    == IF Flat /\ Lt(Dn0, Dn1) THEN Dn1 ELSE Dn0
M1    == IF Flat /\ Lt(Dn0, Dn1) THEN Dn0 ELSE Dn1
B0    == IF Flat THEN (IF X(3) > X(2) THEN X(2) ELSE X(3)) ELSE IF Swap THEN X(2) ELSE X(3)
B1    == IF Flat THEN (IF X(3) > X(2) THEN X(3) ELSE X(2)) ELSE IF Swap THEN X(3) ELSE X(2)
D0    == IF Swap THEN 0 ELSE Y(2) - Y(3)
D1    == IF Swap THEN Y(2) - Y(3) ELSE 0

UpX0(y) == At(Up0, y - Y(3), X(3))
UpX1(y) == At(Up1, y - Y(3), X(3))
DnX0(y) == At(M0, y - Y(2) + D0, B0)
DnX1(y) == At(M1, y - Y(2) + D1, B1)

Line(x0, x1, y) == {<<x, y>> : x \in x0..(x1 - 1)}
Block(x, y)     == (x..(x + bs - 1)) \X (y..(y + bs - 1))

(* What is drawn: a set of sets of pixels, the sizes of which are summed to *)
(* see whether a pixel is drawn twice                                       *)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE z \in S : TRUE IN Cardinality(e[2]) + Total(S \ {e})

(* parts: pairs of a distinct label and a set of pixels *)
Draw(parts) ==
    LET all == UNION {e[2] : e \in parts}
    IN /\ drawn' = drawn \cup all
       /\ twice' = (twice \/ all \cap drawn # {} \/ Cardinality(all) # Total(parts))

(* A strip of bs rows: left of mx and right of the last block, lines are    *)
(* drawn.  Left is the edge on the left at the row next to the middle       *)
(* vertex and at the row farthest from it.                                  *)
LeftMax(near, far)  == IF Bug = "onlybottom" THEN near ELSE MaxR(near, far)
RightMin(near, far) == MinR(near, far)
TooNarrow(mx, mn) == Bug # "noguard" /\ ~Lt(Whole(Trunc(mx) + bs), mn)

RECURSIVE LastX(_, _)
LastX(x, mn) == IF Lt(Whole(x + bs), mn) THEN LastX(x + bs, mn) ELSE x

Strip(L, R, mx, mn, top) ==
    LET x0 == Trunc(mx)
        xn == LastX(x0, mn)
    IN Draw({<<<<0, y>>, Line(Trunc(L[y]), x0, y)>> : y \in DOMAIN L}
            \cup {<<<<1, x>>, Block(x, top)>> : x \in {z \in x0..(xn - 1) : (z - x0) % bs = 0}}
            \cup {<<<<2, y>>, Line(xn, Trunc(R[y]), y)>> : y \in DOMAIN L})

Init == /\ \E p, q, r \in Pts : Orient(p, q, r) # 0 /\ v = Sorted(p, q, r)
        /\ bs \in 1..MaxBS
        /\ ph = "up" /\ i = Y(2) - 1
        /\ drawn = {} /\ twice = FALSE

UpMax(top) == LeftMax(UpX0(i), UpX0(top))
UpMin(top) == RightMin(UpX1(i), UpX1(top))
DnMax(bottom) == LeftMax(DnX0(i), DnX0(bottom))
DnMin(bottom) == RightMin(DnX1(i), DnX1(bottom))

UpStrip ==
    /\ ph = "up"
    /\ LET top == i - bs + 1 IN
       IF i > Y(3) /\ ~TooNarrow(UpMax(top), UpMin(top))
       THEN Strip([y \in top..i |-> UpX0(y)], [y \in top..i |-> UpX1(y)], UpMax(top), UpMin(top), top) /\ i' = i - bs /\ UNCHANGED ph
       ELSE ph' = "uplines" /\ UNCHANGED <<i, drawn, twice>>
    /\ UNCHANGED <<v, bs>>

UpLine ==
    /\ ph = "uplines"
    /\ IF i > Y(3)
       THEN Draw({<<0, Line(Trunc(UpX0(i)), Trunc(UpX1(i)), i)>>}) /\ i' = i - 1 /\ UNCHANGED ph
       ELSE ph' = "down" /\ i' = Y(2) /\ UNCHANGED <<drawn, twice>>
    /\ UNCHANGED <<v, bs>>

DownStrip ==
    /\ ph = "down"
    /\ LET bottom == i + bs - 1 IN
       IF i + bs < Y(1) /\ ~TooNarrow(DnMax(bottom), DnMin(bottom))
       THEN Strip([y \in i..bottom |-> DnX0(y)], [y \in i..bottom |-> DnX1(y)], DnMax(bottom), DnMin(bottom), i) /\ i' = (IF Bug = "rowtwice" THEN bottom ELSE i + bs) /\ UNCHANGED ph
       ELSE ph' = "downlines" /\ UNCHANGED <<i, drawn, twice>>
    /\ UNCHANGED <<v, bs>>

DownLine ==
    /\ ph = "downlines"
    /\ IF i < Y(1)
       THEN Draw({<<0, Line(Trunc(DnX0(i)), Trunc(DnX1(i)), i)>>}) /\ i' = i + 1 /\ UNCHANGED ph
       ELSE ph' = "done" /\ UNCHANGED <<i, drawn, twice>>
    /\ UNCHANGED <<v, bs>>

Next == UpStrip \/ UpLine \/ DownStrip \/ DownLine

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* The pixels of a triangle, from its edges *)
Crossing(a, b, y) == (a[1] * (b[2] - a[2]) + (b[1] - a[1]) * (y - a[2])) \div (b[2] - a[2])
HasRow(a, b, y)   == a[2] <= y /\ y < b[2]
Crossings(p, q, r, y) == {Crossing(e[1], e[2], y) : e \in {f \in {<<p, q>>, <<q, p>>, <<q, r>>, <<r, q>>, <<r, p>>, <<p, r>>} : HasRow(f[1], f[2], y)}}
Pixels(p, q, r) == {z \in (0..G) \X (0..G) :
                       LET C == Crossings(p, q, r, z[2])
                       IN \E a, b \in C : a <= z[1] /\ z[1] < b}

Inside  == drawn \subseteq Pixels(v[1], v[2], v[3])
Once    == ~twice
AllDone == ph = "done" => drawn = Pixels(v[1], v[2], v[3])
Ends    == <>(ph = "done")
=============================================================================
