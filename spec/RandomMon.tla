----------------------------- MODULE RandomMon -----------------------------
(***************************************************************************)
(* The source of random numbers, mutators and generators.  A 64-bit word   *)
(* (an integer, or the bits of a float64) is four 16-bit numbers, the      *)
(* highest first.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Props == {"C21", "C22", "C23", "C27"}

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

Init0(k) == [viol |-> {}, at |-> 0, log |-> <<>>, seed |-> <<>>]

(* Words as unsigned integers *)
Below(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

FOne     == <<16368, 0, 0, 0>>      \* 1.0
FMinus0  == <<32768, 0, 0, 0>>      \* -0.0
Finite(a) == (a[1] % 32768) < 32752
InUnit(a) == a = FMinus0 \/ Below(a, FOne) \/ a = FOne

---------------------------------------------------------------------------
(* m.log has the calls made since each time a seed was set: as long as the *)
(* calls are the same after the same seed, so are the results.             *)
InRange(e) ==
    CASE e.f = "intn"    -> Below(e.r, e.n)
      [] e.f = "float32" -> Below(e.r, FOne)
      [] e.f = "int63"   -> e.r[1] < 32768
      [] e.f = "uint32"  -> e.r[1] = 0 /\ e.r[2] = 0
      [] e.f = "norm"    -> Finite(e.r)

Call(e) == <<e.f, e.n>>

Agrees(m, e) ==
    LET me == m.log[m.at].calls
        k  == Len(me) + 1
    IN \A i \in 1..Len(m.log) :
          LET other == m.log[i].calls IN
          (/\ i # m.at
           /\ m.log[i].seed = m.log[m.at].seed
           /\ Len(other) >= k
           /\ \A j \in 1..Len(me) : other[j][1] = me[j][1]
           /\ other[k][1] = Call(e)) => other[k][2] = e.r

OnSeed(m, e) == [m EXCEPT !.log = Append(@, [seed |-> e.s, calls |-> <<>>]), !.at = Len(m.log) + 1]

OnCall(m, e) ==
    LET m1 == Flag(m, "C23", InRange(e) /\ (m.at > 0 => Agrees(m, e)))
    IN IF m.at = 0 THEN m1 ELSE [m1 EXCEPT !.log[m.at].calls = Append(@, <<Call(e), e.r>>)]

---------------------------------------------------------------------------
(* Points are <<x, y>> with words as coordinates.  e.rate is 0, 1, or 2 for *)
(* anything between; e.rep has <<index, old, new>>.                         *)
OnMutate(m, e) ==
    LET N == Len(e.b)
        R == e.rep
        which == {R[k][1] : k \in 1..Len(R)}
    IN Flag(m, "C21",
            /\ Len(e.a) = N
            /\ Cardinality(which) = Len(R)      \* each at most once
            /\ \A k \in 1..Len(R) : /\ R[k][1] \in 1..N
                                    /\ R[k][2] = e.b[R[k][1]]
                                    /\ R[k][3] = e.a[R[k][1]]
            /\ \A i \in 1..N : i \notin which => e.a[i] = e.b[i]
            /\ \A i \in 1..N : InUnit(e.a[i][1]) /\ InUnit(e.a[i][2])
            /\ e.rate = 0 => R = <<>>
            /\ e.rate = 1 => Len(R) = N)

---------------------------------------------------------------------------
(* Generators: e.s are the points the generator started from, e.p those it *)
(* returned after e.k iterations, in units of 1/2^14, rounded down; with   *)
(* e.k = -1 there's no start.                                              *)
Sq(p, q)  == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
(* The error that rounding leaves in Sq *)
Slack(p, q) == LET a(x) == IF x < 0 THEN -x ELSE x IN 2 * (a(p[1] - q[1]) + a(p[2] - q[2])) + 2

(* Bounds of the squared distance from the i-th point to the nearest other *)
Upper(S, i) == Min({Sq(S[i], S[j]) + Slack(S[i], S[j]) : j \in (1..Len(S)) \ {i}})
Lower(S, i) == Min({Sq(S[i], S[j]) - Slack(S[i], S[j]) : j \in (1..Len(S)) \ {i}})

(* P comes from S by moving the points in I one after the other *)
RECURSIVE Stepwise(_, _, _)
Stepwise(S, P, I) ==
    \/ I = {}
    \/ \E i \in I : LET T == [S EXCEPT ![i] = P[i]]
                  IN Upper(T, i) > Lower(S, i) /\ Stepwise(T, P, I \ {i})

OnGenerate(m, e) ==
    LET N == Len(e.p)
        moved == {i \in 1..N : e.p[i] # e.s[i]}
    IN Flag(m, "C22",
            /\ N = e.n
            /\ \A i \in 1..N : \A k \in 1..2 : e.p[i][k] \in 0..16384
            /\ e.k >= 0 =>
                 /\ Len(e.s) = N
                 /\ Cardinality(moved) <= e.k
                 /\ N < 2 => moved = {}
                 /\ N >= 2 =>
                      /\ Min({Upper(e.p, i) : i \in 1..N}) >= Min({Lower(e.s, i) : i \in 1..N})
                      \* Each was moved once, in some order, and got farther from the others
                      /\ (e.k \in 1..4 /\ Cardinality(moved) = e.k) => Stepwise(e.s, e.p, moved)
                      \* It was one point that was moved, however often
                      /\ Cardinality(moved) = 1 => Stepwise(e.s, e.p, moved))

---------------------------------------------------------------------------
(* Distributions.  Counts are compared with what is expected of n numbers  *)
(* by the sum of the squared differences, each relative to what is         *)
(* expected (chi square); probabilities are in millionths, expectations    *)
(* and differences in tenths.                                              *)
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumTo(_, _)
SumTo(F, i) == IF i = 0 THEN 0 ELSE F[i] + SumTo(F, i - 1)

(* E: expectations, V: variances, C: counts *)
Fits(C, E, V, freedom) ==
    LET D == [i \in 1..Len(C) |-> Abs((10 * C[i]) - E[i])]
    IN /\ \A i \in 1..Len(C) : D[i] <= 40000 /\ (V[i] = 0 => D[i] = 0)
       /\ SumTo([i \in 1..Len(C) |-> IF V[i] = 0 THEN 0 ELSE (D[i] * D[i]) \div V[i]], Len(C)) <= 10 * ((2 * freedom) + 60)

Expect(n, p) == ((n \div 1000) * p) \div 100
FitsP(C, n, P) == LET E == [i \in 1..Len(C) |-> Expect(n, P[i])] IN Fits(C, E, E, Len(C) - 1)

Even(k) == [i \in 1..k |-> 1000000 \div k]
FitsEven(C, n) == LET E == [i \in 1..Len(C) |-> (10 * n) \div Len(C)] IN Fits(C, E, E, Len(C) - 1)

(* The standard normal distribution: edges in thousandths *)
NormEdges == <<-2000, -1500, -1000, -700, -400, -200, 0, 200, 400, 700, 1000, 1500, 2000>>
NormP     == <<22750, 44057, 91848, 83308, 102615, 76162, 79260, 79260, 76162, 102615, 83308, 91848, 44057, 22750>>
(* from -4 to 4 in steps of 0.2 *)
NormBigP  == <<32, 41, 87, 178, 350, 663, 1205, 2106, 3536, 5706, 8847, 13180, 18869, 25957, 34313, 43586, 53200, 62398, 70325, 76162, 79260, 79258, 76162, 70325, 62398, 53200, 43586, 34313, 25957, 18869, 13180, 8847, 5706, 3536, 2106, 1205, 663, 350, 178, 87, 41, 32>>

Tally(B, k) == [i \in 1..k |-> Cardinality({j \in DOMAIN B : B[j] = i})]

(* The bins of numbers: sixteen or so, and four *)
UniBin(v, lim) == IF v \in 0..(lim - 1) THEN (v \div (lim \div 16)) + 1 ELSE 0
NormBin(v)  == 1 + Cardinality({i \in 1..Len(NormEdges) : v >= NormEdges[i]})
NormQuad(v) == IF v < -674 THEN 1 ELSE IF v < 0 THEN 2 ELSE IF v < 674 THEN 3 ELSE 4

OnSample(m, e) ==
    LET N == Len(e.v)
        bin(v)  == IF e.of = "norm" THEN NormBin(v) ELSE UniBin(v, e.lim)
        quad(v) == IF e.of = "norm" THEN NormQuad(v) ELSE ((UniBin(v, e.lim) - 1) \div 4) + 1
        B == [j \in 1..N |-> bin(e.v[j])]
        \* numbers that follow one another don't depend on each other
        Q == [j \in 1..(N \div 2) |-> ((quad(e.v[(2 * j) - 1]) - 1) * 4) + quad(e.v[2 * j])]
    IN Flag(m, "C27",
            /\ N = e.n
            /\ \A j \in 1..N : B[j] # 0
            /\ IF e.of = "norm" THEN FitsP(Tally(B, Len(NormP)), N, NormP) ELSE FitsEven(Tally(B, 16), N)
            /\ FitsEven(Tally(Q, 16), N \div 2))

OnCount(m, e) ==
    Flag(m, "C27", IF e.of = "norm" THEN FitsP(e.c, e.n, NormBigP) ELSE FitsEven(e.c, e.n))

(* Points of a large group never coincide by chance *)
OnTwins(m, e) == Flag(m, "C27", e.made = e.n /\ e.c = 0)

(* e.c: how often each of several things happened in e.n trials, with probability e.rate/10^4 *)
OnRate(m, e) ==
    LET E == [i \in 1..Len(e.c) |-> (e.n * e.rate) \div 1000]
        V == [i \in 1..Len(e.c) |-> (E[i] * (10000 - e.rate)) \div 10000]
        k == Len(e.c)
    IN Flag(m, "C27",
            /\ Fits(e.c, E, V, k)
            /\ e.own => Fits(<<SumTo(e.c, k)>>, <<k * E[1]>>, <<k * V[1]>>, 1))

---------------------------------------------------------------------------
Step(c, m, e) ==
    CASE e.e = "seed" -> OnSeed(m, e)
      [] e.e = "call" -> OnCall(m, e)
      [] e.e = "mut"  -> OnMutate(m, e)
      [] e.e = "gen"  -> OnGenerate(m, e)
      [] e.e = "sample" -> OnSample(m, e)
      [] e.e = "count"  -> OnCount(m, e)
      [] e.e = "rate"   -> OnRate(m, e)
      [] e.e = "twins"  -> OnTwins(m, e)
      [] OTHER        -> [m EXCEPT !.viol = Props]
=============================================================================
