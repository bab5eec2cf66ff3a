---------------------------- MODULE DelaunayGen ----------------------------
(* Turns behaviours of the design (TLC -simulate) into histories for the    *)
(* real code, with an observation after every operation.                    *)
EXTENDS Delaunay, Json, Sequences, Randomization

CONSTANTS NOps, Scale

VARIABLE hist

Op(k, p) == <<[k |-> k, o |-> 1, x |-> p[1] * Scale, y |-> p[2] * Scale], [k |-> "o", o |-> 1]>>

GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < 2 * NOps
         \* one point at random instead of all (depends on the state, so it is drawn anew)
         /\ \E p \in RandomSubset(1, {q \in Points : Len(hist) >= 0}) \cup
                     (IF bag = <<>> THEN {} ELSE RandomSubset(1, DOMAIN bag)) :
              \/ Insert(p) /\ hist' = hist \o Op("i", p)
              \/ Remove(p) /\ hist' = hist \o Op("r", p)

GSpec == GInit /\ [][GNext]_<<vars, hist>>

Scenario == [kind |-> "model", dims |-> <<<<W * Scale, H * Scale>>>>, ops |-> hist]

Emit == Len(hist) = 2 * NOps => PrintT("SCN " \o ToJson(Scenario))
=============================================================================
