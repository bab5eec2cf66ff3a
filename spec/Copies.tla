------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* Structures made of buckets that can be set to one another, as those of  *)
(* incremental triangulations and Voronoi diagrams.  A bucket is a slice:  *)
(* it refers to an array of the heap and uses the first n entries of it.   *)
(* Setting reuses the arrays of the target where they are long enough.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS Objs,      \* number of structures
          NBuckets,
          Vals,      \* number of values that a structure can have
          MaxCap,    \* longest array
          Bug

ToSet(q) == {q[i] : i \in 1..Len(q)}

O == 1..Objs
B == 1..NBuckets
V == 1..Vals
Bucket(v) == 1 + (v % NBuckets)

Ids == 0..(Objs * NBuckets + 1)      \* 0: no array
Nil == [a |-> 0, n |-> 0]

VARIABLES heap,      \* arrays: sequences, of which unused entries are 0
          sl,        \* sl[o][b]: the slice
          has        \* what each structure should have in each bucket, in order
vars == <<heap, sl, has>>

Refs(s) == {s[o][b].a : o \in O, b \in B} \ {0}
Free == Min(Ids \ (Refs(sl) \cup {0}))
Array(a) == IF a = 0 THEN <<>> ELSE heap[a]
Content(s) == SubSeq(Array(s.a), 1, s.n)
Pad(s, c) == s \o [i \in 1..(c - Len(s)) |-> 0]

(* Arrays nobody refers to are collected, entries nobody uses are zero, and an *)
(* array is named after the first bucket that refers to it.                    *)
Pos(o, b) == (o - 1) * NBuckets + b
Users(s, a) == {<<o, b>> \in O \X B : s[o][b].a = a}
Name(s, a) == IF a = 0 THEN 0 ELSE Min({Pos(u[1], u[2]) : u \in Users(s, a)})
Tidy(s, a, q) == LET n == Max({s[u[1]][u[2]].n : u \in Users(s, a)})
                 IN [i \in 1..Len(q) |-> IF i <= n THEN q[i] ELSE 0]
Become(h, s) ==
    /\ sl' = [o \in O |-> [b \in B |-> [s[o][b] EXCEPT !.a = Name(s, @)]]]
    /\ heap' = [k \in Ids |-> LET A == {a \in Refs(s) : Name(s, a) = k}
                              IN IF A = {} THEN <<>> ELSE LET a == Min(A) IN Tidy(s, a, h[a])]

Init == /\ heap = [a \in Ids |-> <<>>]
        /\ sl = [o \in O |-> [b \in B |-> Nil]]
        /\ has = [o \in O |-> [b \in B |-> <<>>]]

Put(o, v) ==
    LET b == Bucket(v) IN
    LET s == sl[o][b] IN
    /\ v \notin ToSet(has[o][b])
    /\ has' = [has EXCEPT ![o][b] = Append(@, v)]
    /\ IF s.n < Len(Array(s.a))
       THEN Become([heap EXCEPT ![s.a][s.n + 1] = v], [sl EXCEPT ![o][b].n = @ + 1])
       ELSE \E c \in (s.n + 1)..MaxCap :      \* grows by as much as the runtime likes
               LET f == Free IN
               Become([heap EXCEPT ![f] = Pad(Append(Content(s), v), c)],
                      [sl EXCEPT ![o][b] = [a |-> f, n |-> s.n + 1]])

(* The last entry takes the place of the removed one *)
Without(q, v) == LET i == CHOOSE k \in 1..Len(q) : q[k] = v
                 IN SubSeq([q EXCEPT ![i] = q[Len(q)]], 1, Len(q) - 1)

Drop(o, v) ==
    LET b == Bucket(v) IN
    LET s == sl[o][b] IN
    /\ v \in ToSet(has[o][b])
    /\ has' = [has EXCEPT ![o][b] = Without(@, v)]
    /\ v \in ToSet(Content(s))      \* (the library panics otherwise; Exact rules that out)
    /\ LET i == CHOOSE k \in 1..s.n : heap[s.a][k] = v
       IN Become([heap EXCEPT ![s.a][i] = heap[s.a][s.n]], [sl EXCEPT ![o][b].n = @ - 1])

(* One bucket t of the target is set to the bucket s of another: the new heap and slice *)
Over(h, a, q) == [h EXCEPT ![a] = q \o SubSeq(h[a], Len(q) + 1, Len(h[a]))]
SetBucket(h, f, t, s) ==
    LET q == SubSeq(IF s.a = 0 THEN <<>> ELSE h[s.a], 1, s.n)
        c == IF t.a = 0 THEN 0 ELSE Len(h[t.a])
    IN CASE Bug = "share" -> <<h, s>>
         [] Bug = "shareshort" /\ c < s.n -> <<h, s>>           \* too short: the other's is used
         [] Bug = "keeplen" /\ t.n > s.n -> <<Over(h, t.a, q), t>>   \* not cut to size
         [] Bug = "nogrow" /\ c < s.n ->                        \* copies only what fits
               <<IF t.a = 0 THEN h ELSE Over(h, t.a, SubSeq(q, 1, c)), [t EXCEPT !.n = c]>>
         [] c >= s.n -> <<IF t.a = 0 THEN h ELSE Over(h, t.a, q), [t EXCEPT !.n = s.n]>>
         [] OTHER    -> <<[h EXCEPT ![f] = q], [a |-> f, n |-> s.n]>>

RECURSIVE SetAll(_, _, _, _, _)
SetAll(h, s, t, from, b) ==
    IF b > NBuckets THEN <<h, s>>
    ELSE LET f == Min(Ids \ (Refs(s) \cup {0}))
             r == SetBucket(h, f, s[t][b], s[from][b])
         IN SetAll(r[1], [s EXCEPT ![t][b] = r[2]], t, from, b + 1)

SetTo(t, from) ==
    /\ t # from
    /\ LET r == SetAll(heap, sl, t, from, 1) IN Become(r[1], r[2])
    /\ has' = [has EXCEPT ![t] = has[from]]

Next == \E o \in O : \/ \E v \in V : Put(o, v) \/ Drop(o, v)
                     \/ \E p \in O : SetTo(o, p)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* A structure has what it should have, whatever is done to others *)
Exact == \A o \in O, b \in B : Content(sl[o][b]) = has[o][b]
(* ... because no array is used by two *)
Apart == \A o, p \in O, b, c \in B : (sl[o][b].a = sl[p][c].a /\ sl[o][b].a # 0) => (o = p /\ b = c)
Fits == \A o \in O, b \in B : sl[o][b].n <= Len(Array(sl[o][b].a))
=============================================================================
