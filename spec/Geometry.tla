------------------------------ MODULE Geometry ------------------------------
(* Exact predicates on points <<x, y>> with |coordinate differences| < 2^14.  *)
(* TLC's integers have 32 bits (it reports overflows), so products are kept  *)
(* as digits to the base 2^15.                                                *)
EXTENDS Integers, Sequences

B15 == 32768

Abs(x) == IF x < 0 THEN -x ELSE x

(* Positive iff a, b, c are counterclockwise; twice the area. Below 2^30.     *)
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])

DistSq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

(* u * v for 0 <= u < 2^30, |v| < 2^30: <<h, m, l>> with 0 <= m, l < B15      *)
Prod(u, v) ==
    LET u1 == u \div B15    u0 == u % B15
        v1 == v \div B15    v0 == v % B15
        lo  == u0 * v0
        m1 == u1 * v0      \* < 2^30
        m2 == u0 * v1
        mid == (m1 % B15) + (m2 % B15) + (lo \div B15)
    IN << u1 * v1 + (m1 \div B15) + (m2 \div B15) + (mid \div B15), mid % B15, lo % B15 >>

(* The sign of a sum of three products *)
SignOfSum3(p, q, r) ==
    LET l == p[3] + q[3] + r[3]
        m == p[2] + q[2] + r[2] + (l \div B15)
        h == p[1] + q[1] + r[1] + (m \div B15)
    IN IF h < 0 THEN -1
       ELSE IF h > 0 \/ (m % B15) > 0 \/ (l % B15) > 0 THEN 1 ELSE 0

(* 1 iff d lies strictly inside the circumcircle of the counterclockwise      *)
(* triangle abc, 0 iff it lies on it, -1 iff it lies outside                  *)
InCircle(a, b, c, d) ==
    LET ax == a[1] - d[1]   ay == a[2] - d[2]
        bx == b[1] - d[1]   by == b[2] - d[2]
        cx == c[1] - d[1]   cy == c[2] - d[2]
    IN SignOfSum3(Prod(ax * ax + ay * ay, bx * cy - cx * by),
                  Prod(bx * bx + by * by, cx * ay - ax * cy),
                  Prod(cx * cx + cy * cy, ax * by - bx * ay))

(* The sign of u * v - s * t, for |.| < 2^30 *)
SgnCmp(u, v, s, t) ==
    LET sg(x) == IF x < 0 THEN -1 ELSE 1
        p == Prod(Abs(u), sg(u) * v)
        q == Prod(Abs(s), -sg(s) * t)
    IN SignOfSum3(p, q, <<0, 0, 0>>)
=============================================================================
