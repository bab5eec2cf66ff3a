------------------------------ MODULE Ziggurat ------------------------------
(***************************************************************************)
(* How normal numbers are made: the area below a decreasing density f is   *)
(* covered by layers of the same area, a layer is drawn, then a place in   *)
(* it.  Places below the layer above are taken; of the others those below  *)
(* the density, otherwise one draws again.  Heights and widths are whole   *)
(* numbers here, so every outcome can be counted.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Which, Bug

(* Widths of the layers, from the lowest; all have the same area *)
Widths == CASE Which = 1 -> <<6, 3, 2, 1>>
            [] Which = 2 -> <<4, 2, 1>>
            [] Which = 3 -> <<6, 2, 1>>
            [] Which = 4 -> <<6, 6, 3, 2>>
Area  == Which \in {1, 3, 4}
A     == IF Area THEN 6 ELSE 4
L     == Len(Widths)
H(i)  == A \div Widths[i]
RECURSIVE Y(_)
Y(i)  == IF i = 1 THEN 0 ELSE Y(i - 1) + H(i - 1)      \* the bottom of a layer
Above(i) == IF i = L THEN 0 ELSE Widths[i + 1]
Xs    == 0..(Widths[1] - 1)

VARIABLES f, res
vars == <<f, res>>

(* The density goes through every layer where it isn't covered by the next *)
Covered(g) == \A i \in 1..L : \A x \in Above(i)..(Widths[i] - 1) : g[x] \in Y(i)..(Y(i) + H(i))
Init == /\ f \in {g \in [Xs -> 0..Y(L) + H(L)] : Covered(g) /\ \A x \in Xs : (x + 1) \in Xs => g[x] >= g[x + 1]}
        /\ res = -1

Taken(i, x, y) == CASE Bug = "nowedge"  -> TRUE
                    [] Bug = "nocorner" -> x < Above(i)
                    [] Bug = "fromtop"  -> x < Above(i) \/ y < f[x]
                    [] OTHER            -> x < Above(i) \/ Y(i) + y < f[x]

Places == {<<i, x, y>> \in (1..L) \X Xs \X (0..A) : x < Widths[i] /\ y < H(i)}

Draw(p) == /\ res = -1
           /\ res' = IF Taken(p[1], p[2], p[3]) THEN p[2] ELSE -1
           /\ UNCHANGED f

Next == \E p \in Places : Draw(p)
Spec == Init /\ [][Next]_vars

(* All places are equally likely, so the numbers are distributed like the density *)
Same == \A i \in 1..L : Cardinality({p \in Places : p[1] = i}) = A
Fair == \A x \in Xs : Cardinality({p \in Places : p[2] = x /\ Taken(p[1], p[2], p[3])}) = f[x]
InIt == res # -1 => f[res] > 0
=============================================================================
