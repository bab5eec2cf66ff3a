------------------------------ MODULE Groups ------------------------------
(***************************************************************************)
(* Point groups are slices: each variable holds the address of its points. *)
(* Copy gives a new address, Set writes through the address it is given    *)
(* and needs as many points. Seen from outside every variable is a value:  *)
(* only what is written to it changes it (val is that value).              *)
(* Bug: "alias" (Copy shares the points), "point" (Set takes the other's   *)
(* address), "short" (Set writes what fits)                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Vars, Len0, Values, Bug
(* Vars: how many variables; Len0: longest group; Values: number of different points *)

VARIABLES heap,  \* address -> points
          at,    \* variable -> address
          val,   \* variable -> the value it should have
          used   \* addresses given out
vars == <<heap, at, val, used>>

MaxAddr == Vars + 3
Seqs == UNION {[1..n -> 1..Values] : n \in 0..Len0}

Init == /\ val \in [1..Vars -> Seqs]
        /\ heap = [a \in 1..MaxAddr |-> IF a <= Vars THEN val[a] ELSE <<>>]
        /\ at = [v \in 1..Vars |-> v]
        /\ used = Vars

Copy(o, f) == /\ used < MaxAddr
              /\ IF Bug = "alias"
                 THEN at' = [at EXCEPT ![o] = at[f]] /\ UNCHANGED <<heap, used>>
                 ELSE /\ used' = used + 1
                      /\ heap' = [heap EXCEPT ![used + 1] = heap[at[f]]]
                      /\ at' = [at EXCEPT ![o] = used + 1]
              /\ val' = [val EXCEPT ![o] = val[f]]

Min(a, b) == IF a < b THEN a ELSE b

SetTo(o, f) ==
    LET A == heap[at[o]]
        B == heap[at[f]]
    IN \/ /\ Len(A) = Len(B)
          /\ val' = [val EXCEPT ![o] = val[f]]
          /\ IF Bug = "point" THEN at' = [at EXCEPT ![o] = at[f]] /\ UNCHANGED <<heap, used>>
             ELSE heap' = [heap EXCEPT ![at[o]] = B] /\ UNCHANGED <<at, used>>
       \/ /\ Bug = "short" /\ Len(A) # Len(B)
          /\ heap' = [heap EXCEPT ![at[o]] = [i \in 1..Len(A) |-> IF i <= Len(B) THEN B[i] ELSE A[i]]]
          /\ UNCHANGED <<at, val, used>>   \* it should have been refused

Write(o, i, x) == /\ i <= Len(heap[at[o]])
                  /\ heap' = [heap EXCEPT ![at[o]][i] = x]
                  /\ val' = [val EXCEPT ![o][i] = x]
                  /\ UNCHANGED <<at, used>>

Next == \E o \in 1..Vars :
           \/ \E f \in 1..Vars : Copy(o, f) \/ SetTo(o, f)
           \/ \E i \in 1..Len0, x \in 1..Values : Write(o, i, x)

Spec == Init /\ [][Next]_vars

(* What a variable reads is what was given to it *)
ReadsItsValue == \A v \in 1..Vars : heap[at[v]] = val[v]
(* Two variables never share points *)
Apart == \A v, w \in 1..Vars : v # w => at[v] # at[w]
===========================================================================
