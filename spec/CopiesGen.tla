----------------------------- MODULE CopiesGen -----------------------------
(* Turns behaviours of Copies (TLC -simulate) into histories for the real   *)
(* code: values are points, and every structure is observed after each set  *)
(* and after each change that follows one.                                  *)
EXTENDS Copies, Json, TLC, Randomization

CONSTANTS NOps, W, H, Scale      \* values are points of a (W+1) x (H+1) lattice

Place(v) == <<((v - 1) % (W + 1)) * Scale, (((v - 1) \div (W + 1)) % (H + 1)) * Scale>>

VARIABLE hist

Look == [i \in 1..(2 * Objs) |-> [k |-> "o", o |-> IF i % 2 = 1 THEN Objs + (i + 1) \div 2 ELSE i \div 2]]
Both(k, o, v) == LET p == Place(v) IN
                 <<[k |-> k, o |-> o, x |-> p[1], y |-> p[2]], [k |-> k, o |-> Objs + o, x |-> p[1], y |-> p[2]]>>
Sets == Cardinality({i \in 1..Len(hist) : hist[i].k = "s"})

GInit == Init /\ hist = <<>>
GNext ==
    /\ TLCGet("level") <= NOps
    /\ \E o \in RandomSubset(1, {x \in O : Len(hist) >= 0}) :
         \/ \E v \in RandomSubset(2, {x \in V : Len(hist) >= 0}) :
              \/ Put(o, v)    /\ hist' = hist \o Both("i", o, v) \o (IF Sets > 0 THEN Look ELSE <<>>)
              \/ Drop(o, v) /\ hist' = hist \o Both("r", o, v) \o (IF Sets > 0 THEN Look ELSE <<>>)
         \/ \E p \in O : /\ SetTo(o, p) /\ (\E b \in B : has[p][b] # has[o][b])
                         /\ hist' = hist \o <<[k |-> "s", o |-> o, f |-> p], [k |-> "s", o |-> Objs + o, f |-> Objs + p]>> \o Look
GSpec == GInit /\ [][GNext]_<<vars, hist>>

Scenario == [kind |-> "model", dims |-> [i \in 1..Objs |-> <<W * Scale, H * Scale>>], shadows |-> TRUE, ops |-> hist]
Emit == TLCGet("level") = NOps => PrintT("SCN " \o ToJson(Scenario))
=============================================================================
