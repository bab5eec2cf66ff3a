---------------------------- MODULE DelaunayMon ----------------------------
(***************************************************************************)
(* State and observable behaviour of incremental triangulations.           *)
(*                                                                         *)
(* The state of an object is the bag of its points; Insert and Remove      *)
(* change it, Set makes one object's bag that of another.  An observation  *)
(* must agree with the bag: number of points, membership, nearest points,  *)
(* and the triangles R are those triangles of a Delaunay triangulation of  *)
(* the points and the super triangle which have no vertex of the latter.   *)
(*                                                                         *)
(* The observation comes with such a triangulation W (vertices, triangles, *)
(* neighbours) that the harness computed independently; nothing about it   *)
(* is trusted: ValidWitness checks that it is one.  If all triangles are   *)
(* counterclockwise, neighbours match edge by edge and the boundary is the *)
(* super triangle, W covers the super triangle exactly once; if no edge    *)
(* has the opposite vertex of its neighbour strictly inside the            *)
(* circumcircle, no point is strictly inside any (Delaunay's lemma).       *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, FiniteSetsExt, TLC

Props == {"C11", "C12", "C13"}

Empty == [p \in {} |-> 0]

Add(b, p) == IF p \in DOMAIN b THEN [b EXCEPT ![p] = @ + 1] ELSE b @@ (p :> 1)
Del(b, p) == IF b[p] > 1 THEN [b EXCEPT ![p] = @ - 1] ELSE [q \in DOMAIN b \ {p} |-> b[q]]
Size(b)   == FoldFunction(LAMBDA x, y : x + y, 0, b)

Init0(k) == [ bag  |-> [o \in 1..k |-> Empty],
              seen |-> [o \in 1..k |-> <<>>],    \* what the object reported last, if nothing was done to it since
              ok   |-> [o \in 1..k |-> TRUE],    \* its last observation was right
              viol |-> {} ]

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

---------------------------------------------------------------------------
EdgeEnd(k) == (k % 3) + 1
Opp(k)     == ((k + 1) % 3) + 1

ValidWitness(V, W, P) ==
    /\ {V[i] : i \in 4..Len(V)} = P /\ Len(V) = Cardinality(P) + 3
    /\ Orient(V[1], V[2], V[3]) > 0
    /\ \A p \in P : /\ Orient(V[1], V[2], p) > 0 /\ Orient(V[2], V[3], p) > 0 /\ Orient(V[3], V[1], p) > 0
    /\ \A t \in 1..Len(W) :
         /\ Orient(V[W[t][1]], V[W[t][2]], V[W[t][3]]) > 0
         /\ \A k \in 1..3 :
              LET u == W[t][k + 3]
                  a == W[t][k]
                  b == W[t][EdgeEnd(k)]
              IN IF u = 0 THEN b <= 3 /\ a <= 3 /\ b = EdgeEnd(a)
                 ELSE \E j \in 1..3 :
                        /\ W[u][j] = b /\ W[u][EdgeEnd(j)] = a /\ W[u][j + 3] = t
                        /\ u < t \/ InCircle(V[W[t][1]], V[W[t][2]], V[W[t][3]], V[W[u][Opp(j)]]) <= 0
    /\ Cardinality({<<t, k>> \in (1..Len(W)) \X (1..3) : W[t][k + 3] = 0}) = 3
    /\ UNION {{W[t][1], W[t][2], W[t][3]} : t \in 1..Len(W)} = 1..Len(V)

(* Whether the choice of triangles is unique: no four of them cocircular *)
Unique(V, W) == \A t \in 1..Len(W) : \A k \in 1..3 :
                   LET u == W[t][k + 3] IN
                   u > t => \A j \in 1..3 : W[u][j + 3] = t =>
                              InCircle(V[W[t][1]], V[W[t][2]], V[W[t][3]], V[W[u][Opp(j)]]) # 0

Verts(t) == {t[1], t[2], t[3]}

Matches(R, W) ==
    LET S == {Verts(R[i]) : i \in 1..Len(R)} IN
    /\ Cardinality(S) = Len(R)
    /\ S = {Verts(W[t]) : t \in {u \in 1..Len(W) : W[u][1] > 3 /\ W[u][2] > 3 /\ W[u][3] > 3}}

CountOK(b, e)   == e.np = Size(b)
HasOK(b, e)     == \A i \in 1..Len(e.has) :
                      (e.has[i][3] = 1) <=> (<<e.has[i][1], e.has[i][2]>> \in DOMAIN b)
ClosestOK(b, e) == \A i \in 1..Len(e.cl) :
                      LET q == <<e.cl[i][1], e.cl[i][2]>>
                          r == <<e.cl[i][3], e.cl[i][4]>>
                      IN /\ r \in DOMAIN b
                         /\ \A p \in DOMAIN b : DistSq(q, r) <= DistSq(q, p)

OnObs(c, m, e) ==
    LET b  == m.bag[e.o]
        w  == Assert(ValidWitness(e.V, e.W, DOMAIN b), <<"the harness's witness is wrong", e>>)
        d  == Matches(e.R, e.W)
        q  == CountOK(b, e) /\ HasOK(b, e) /\ ClosestOK(b, e)
        sh == c.sh[e.o]
        m1 == Flag(m, "C11", w /\ d)
        m2 == Flag(m1, "C12", q)
        \* Reports nothing new if nothing was done to it (or it was just set to what reported that)
        m3 == Flag(m2, "C13", m.seen[e.o] # <<>> =>
                                 /\ m.seen[e.o].np = e.np
                                 /\ m.seen[e.o].R = {Verts(e.R[i]) : i \in 1..Len(e.R)})
        \* After copies, it's as right as the one that went through the same history without any
        m4 == Flag(m3, "C13", sh # 0 /\ m.ok[sh] => d /\ q)
    IN [m4 EXCEPT !.seen[e.o] = [np |-> e.np, R |-> {Verts(e.R[i]) : i \in 1..Len(e.R)}],
                  !.ok[e.o] = d /\ q]

Step(c, m, e) ==
    CASE e.e = "ins" -> [m EXCEPT !.bag[e.o] = Add(@, e.p), !.seen[e.o] = <<>>]
      [] e.e = "rem" -> [m EXCEPT !.bag[e.o] = Del(@, e.p), !.seen[e.o] = <<>>]
      [] e.e = "bulk" -> \* many points that aren't there yet
           [m EXCEPT !.bag[e.o] = LET N == {e.ps[i] : i \in 1..Len(e.ps)}
                                  IN [p \in DOMAIN @ \cup N |-> IF p \in N THEN 1 ELSE @[p]],
                     !.seen[e.o] = <<>>]
      [] e.e = "copies" -> \* of a point that is there before and afterwards
           [m EXCEPT !.bag[e.o][e.p] = @ + e.n, !.seen[e.o] = <<>>]
      [] e.e = "set" -> [m EXCEPT !.bag[e.o] = m.bag[e.from],
                                  !.seen[e.o] = IF c.sh[e.o] # 0 THEN m.seen[e.from] ELSE <<>>]
      [] e.e = "obs" -> OnObs(c, m, e)
      [] OTHER       -> [m EXCEPT !.viol = Props]
===========================================================================
