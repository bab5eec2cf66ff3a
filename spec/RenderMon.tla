----------------------------- MODULE RenderMon -----------------------------
(***************************************************************************)
(* Rendering shapes on an image, and converting images.                    *)
(*                                                                         *)
(* c.w, c.h is the size of the image and c.img its rows, each colour as    *)
(* one number (256 * 256 * r + 256 * g + b).  A rendered shape has the     *)
(* vertices of its shape in units of 1/1024 of a pixel, and its colour     *)
(* times 8 times the number n of colours it is the average of.             *)
(***************************************************************************)
EXTENDS RasterMon

RProps == {"C19", "C20"}

RInit0(k) == [viol |-> {}]

Within(n, e) == n - e <= 1 /\ e - n <= 1

---------------------------------------------------------------------------
Fan(v) == [i \in 1..(IF Len(v) < 3 THEN 0 ELSE Len(v) - 2) |-> <<v[i + 2], v[i + 1], v[1]>>]

NonDeg(p) == (p[2][1] - p[1][1]) * (p[3][2] - p[1][2]) # (p[3][1] - p[1][1]) * (p[2][2] - p[1][2])

(* The intervals l[i] drawn for the triangles of the shape are the right    *)
(* ones (that of a triangle without area can be anything in the image)     *)
Covers(sh, c) ==
    LET f == Fan(sh.v) IN
    /\ Len(sh.l) = Len(f)
    /\ \A i \in 1..Len(f) :
          /\ NonDeg(f[i]) => ExactCover(f[i], sh.l[i])
          /\ \A j \in 1..Len(sh.l[i]) : LET s == sh.l[i][j]
                                        IN s[1] >= s[2] \/ (s[1] >= 0 /\ s[2] <= c.w /\ s[3] \in 0..(c.h - 1))

Plus(acc, p) == <<acc[1] + 1, acc[2] + p \div 65536, acc[3] + ((p \div 256) % 256), acc[4] + (p % 256)>>

PlusLine(acc, s, c) == IF s[1] >= s[2] THEN acc
                       ELSE FoldLeft(Plus, acc, SubSeq(c.img[s[3] + 1], s[1] + 1, s[2]))

Pixels(sh, c) == FoldLeft(LAMBDA a, s : PlusLine(a, s, c), <<0, 0, 0, 0>>, FlattenSeq(sh.l))

Lesser(a, b) == IF a < b THEN a ELSE b

(* Of a shape without pixels the ones nearest to its vertices *)
Nearest(sh, c) == FoldLeft(LAMBDA a, p : Plus(a, c.img[Lesser(p[2], c.h - 1) + 1][Lesser(p[1], c.w - 1) + 1]),
                           <<0, 0, 0, 0>>, sh.v)

Expected4(sh, c) == LET s == Pixels(sh, c) IN IF s[1] > 0 THEN s ELSE Nearest(sh, c)

Vertices(sh, o) == /\ Len(o.v) = Len(sh.v)
                   /\ \A i \in 1..Len(sh.v) : o.v[i] = <<1024 * sh.v[i][1], 1024 * sh.v[i][2]>>

ShapeOK(sh, o, c) ==
    LET x == Expected4(sh, c) IN
    /\ Vertices(sh, o)
    /\ Assert(sh.n = x[1], <<"the harness counts other pixels", sh, x>>)
    /\ \A k \in 1..3 : Within(o.c[k], 8 * x[k + 1])

OnRender(c, m, e) ==
    Flag(m, "C19", /\ Len(e.out) = Len(e.sh)
                   /\ \A i \in 1..Len(e.sh) : Covers(e.sh[i], c) /\ ShapeOK(e.sh[i], e.out[i], c))

(* An image of one colour e.c; colours times 1024 *)
OnFlat(m, e) ==
    Flag(m, "C19", /\ Len(e.out) = Len(e.sh)
                   /\ \A i \in 1..Len(e.sh) : /\ Vertices(e.sh[i], e.out[i])
                                              /\ \A k \in 1..3 : Within(e.out[i].c[k], 1024 * e.c[k]))

---------------------------------------------------------------------------
(* e.src are the (alpha-premultiplied) 16-bit colours of the image, row by *)
(* row from its top left corner; e.out the data's times 255 * 1024         *)
OnConvert(m, e) ==
    Flag(m, "C20", /\ <<e.w, e.h>> = <<e.sw, e.sh>>
                   /\ Assert(Len(e.src) = e.sw * e.sh, "the harness's image is wrong")
                   /\ Len(e.out) = Len(e.src)
                   /\ \A i \in 1..Len(e.src) : \A k \in 1..3 : e.out[i][k] = 1024 * (e.src[i][k] \div 256))

(* Large images: the colours at some places <<x, y>>, if there are any *)
OnPlaces(m, e) ==
    Flag(m, "C20", /\ <<e.w, e.h>> = <<e.sw, e.sh>>
                   /\ Len(e.out) = Len(e.src)
                   /\ \A i \in 1..Len(e.src) : \A k \in 1..3 : e.out[i][k] = 1024 * (e.src[i][k] \div 256))

RStep(c, m, e) ==
    CASE e.e = "render" -> OnRender(c, m, e)
      [] e.e = "flat"   -> OnFlat(m, e)
      [] e.e = "conv"   -> OnConvert(m, e)
      [] e.e = "convs"  -> OnPlaces(m, e)
      [] OTHER          -> [m EXCEPT !.viol = RProps]
=============================================================================
