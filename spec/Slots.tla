------------------------------- MODULE Slots -------------------------------
(***************************************************************************)
(* Two triangulations keep their triangles in numbered slots. Inserting a  *)
(* point gives up r slots and then needs r + 2, removing one gives up r    *)
(* and then needs r - 2; slots that were given up are used again. Setting  *)
(* one triangulation to the other takes over its slots as they are.        *)
(* Bug: "noreuse" (always a new slot), "lostfree" (Set forgets the free    *)
(* slots), "keepfree" (Set keeps those of the target), "first" (all but    *)
(* the last of the slots given up at once are forgotten), "late" (new      *)
(* slots are taken before the old ones are given up)                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Live, Ops, Bug    \* the largest number of triangles; how many operations

VARIABLES len,   \* handle -> slots that exist
          used,  \* handle -> slots with a triangle
          free,  \* handle -> slots to be used next
          most,  \* most triangles that any of the handles ever had
          n      \* operations so far
vars == <<len, used, free, most, n>>

H == {1, 2}
Init == /\ len = [h \in H |-> 1]
        /\ used = [h \in H |-> {1}]
        /\ free = [h \in H |-> {}]
        /\ most = 1
        /\ n = 0

Max(a, b) == IF a > b THEN a ELSE b
Max3(S) == CHOOSE x \in S : \A y \in S : y <= x

(* Gives up the slots D, then takes a slots *)
Replace(h, D, a) ==
   LET back == IF Bug = "first" /\ D # {} THEN {Max3(D)} ELSE D
       fr   == IF Bug = "late" THEN free[h] ELSE free[h] \cup back
       reuse == IF Bug = "noreuse" THEN 0 ELSE IF Cardinality(fr) < a THEN Cardinality(fr) ELSE a
   IN \E R \in SUBSET fr :
        /\ Cardinality(R) = reuse
        /\ LET new == (len[h] + 1)..(len[h] + a - reuse)
           IN /\ used' = [used EXCEPT ![h] = (@ \ D) \cup R \cup new]
              /\ free' = [free EXCEPT ![h] = (fr \cup back) \ R]
              /\ len'  = [len EXCEPT ![h] = @ + a - reuse]
   /\ most' = Max(most, Cardinality(used[h]) - Cardinality(D) + a)

(* The slots that are given up might as well be any *)
Insert(h) == /\ Cardinality(used[h]) + 2 <= Live
             /\ \E D \in SUBSET used[h] : D # {} /\ Cardinality(D) <= 3 /\ Replace(h, D, Cardinality(D) + 2)

Remove(h) == \E D \in SUBSET used[h] : Cardinality(D) \in 3..4 /\ Replace(h, D, Cardinality(D) - 2)

SetTo(h, o) == /\ h # o
               /\ len' = [len EXCEPT ![h] = len[o]]
               /\ used' = [used EXCEPT ![h] = used[o]]
               /\ free' = [free EXCEPT ![h] = IF Bug = "lostfree" THEN {} ELSE IF Bug = "keepfree" THEN free[h] ELSE free[o]]
               /\ UNCHANGED most

Next == /\ n < Ops
        /\ n' = n + 1
        /\ \E h \in H : Insert(h) \/ Remove(h) \/ \E o \in H : SetTo(h, o)

Spec == Init /\ [][Next]_vars

(* However many operations, there are no more slots than there were triangles at some time *)
Bounded == \A h \in H : len[h] <= most

(* Every slot either has a triangle or is to be used again *)
Kept == \A h \in H : used[h] \cap free[h] = {} /\ used[h] \cup free[h] = 1..len[h]
=============================================================================
