------------------------------- MODULE Repro -------------------------------
(***************************************************************************)
(* Why runs are reproducible: two runs of an algorithm start with the same *)
(* members and draw the same mutations.  In one, evaluations end in the    *)
(* order of the members; in the other, in any order.  Results are put      *)
(* where they belong, and the beneficial mutations of a base are merged as *)
(* they come.  As long as no two different members are equally fit, both   *)
(* evaluate the same members and rank them equally.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS Algo, Size, Cutoff, NPts, NCoords, NFit, MaxGen, Bug

Bugs == {"none", "lastwins", "arrivalbase", "arrivalslot", "drawlate"}
ASSUME /\ Algo \in {"mod", "simple"} /\ Bug \in Bugs
       /\ Cutoff >= 1 /\ 2 * Cutoff <= Size

N1      == IF Algo = "mod" THEN Size - Cutoff ELSE Size
Points  == 1..NPts
Members == [Points -> 1..NCoords]
None    == 0                                 \* a point without a mutation
Draws   == [Points -> 0..NCoords]            \* mutations of a member
NoDraw  == [i \in Points |-> None]
BaseOf(s) == ((s - 1) % Cutoff) + 1
Lowest  == -1                                \* lower than all fitnesses

VARIABLES gen, pc, tied,
          fv,       \* the fitness function
          draws,    \* the mutations drawn in this generation, by member
          pop,      \* pop[r]: the members of run r, ranked
          fit,      \* fit[r]: their fitnesses
          kids,     \* kids[r]: the members that are evaluated
          ben,      \* ben[r][b][i]: <<new, fitness>> of the mutation of point i that is best for base b
          order     \* the second run's members whose evaluations have ended, in this order
vars == <<gen, pc, tied, fv, draws, pop, fit, kids, ben, order>>

Runs == 1..2

Apply(m, d) == [i \in Points |-> IF d[i] = None THEN m[i] ELSE d[i]]

NoBen == [b \in 1..Cutoff |-> [i \in Points |-> <<None, Lowest>>]]

Init == /\ gen = 0 /\ pc = "ended" /\ tied = FALSE
        /\ fv \in [Members -> 0..(NFit - 1)]
        \* without ties, if that is possible
        /\ NFit >= Cardinality(Members) => \A a, b \in Members : a # b => fv[a] # fv[b]
        \* the initial members, ranked; all but the first are the same
        /\ \E a, b \in Members :
              /\ fv[a] >= fv[b]
              /\ LET s == [i \in 1..Size |-> IF i = 1 THEN a ELSE b]
                     f == [i \in 1..Size |-> fv[s[i]]]
                 IN pop = <<s, s>> /\ fit = <<f, f>>
        /\ draws = [s \in 1..Size |-> NoDraw]
        /\ kids = pop /\ ben = <<NoBen, NoBen>> /\ order = <<>>

(* The result of member s has come; st is <<kids, fit, ben>> of a run, k how many came before *)
Come(st, s, k, dr) ==
    LET slot  == IF Bug = "arrivalslot" THEN k + 1 ELSE s
        d     == IF Bug = "drawlate" /\ s > Cutoff THEN dr[IF k + 1 > Cutoff THEN k + 1 ELSE s] ELSE dr[s]
        kid   == Apply(st[1][BaseOf(s)], d)
        ks    == [st[1] EXCEPT ![s] = kid]
        f     == [st[2] EXCEPT ![slot] = fv[kid]]
        b     == BaseOf(s)
        good  == f[s] > f[b]
        merge == [i \in Points |->
                    LET o == st[3][b][i] IN
                    IF d[i] = None THEN o
                    ELSE IF o[1] = None \/ Bug = "lastwins" \/ f[s] > o[2] THEN <<d[i], f[s]>> ELSE o]
    IN <<ks, f, IF Algo = "mod" /\ good THEN [st[3] EXCEPT ![b] = merge] ELSE st[3]>>

RECURSIVE InOrder(_, _, _)
InOrder(st, s, dr) == IF s > N1 THEN st ELSE InOrder(Come(st, s, s - 1, dr), s + 1, dr)

Breed == /\ pc = "ended" /\ gen < MaxGen /\ ~tied
         /\ \E d \in [(Cutoff + 1)..N1 -> Draws] :
              LET dr == [s \in 1..Size |-> IF s \in (Cutoff + 1)..N1 THEN d[s] ELSE NoDraw]
                  k0 == [r \in Runs |-> [s \in 1..Size |-> pop[r][BaseOf(s)]]]
                  f0 == [r \in Runs |-> IF Bug = "arrivalbase" THEN [s \in 1..Size |-> Lowest] ELSE fit[r]]
                  a  == InOrder(<<k0[1], f0[1], NoBen>>, 1, dr)
              IN /\ draws' = dr
                 /\ kids' = <<a[1], k0[2]>> /\ fit' = <<a[2], f0[2]>> /\ ben' = <<a[3], NoBen>>
         /\ pc' = "evaluate" /\ gen' = gen + 1 /\ order' = <<>>
         /\ UNCHANGED <<tied, fv, pop>>

Arrive == /\ pc = "evaluate"
          /\ \E s \in (1..N1) \ ToSet(order) :
                LET b == Come(<<kids[2], fit[2], ben[2]>>, s, Len(order), draws)
                IN /\ kids' = [kids EXCEPT ![2] = b[1]]
                   /\ fit' = [fit EXCEPT ![2] = b[2]]
                   /\ ben' = [ben EXCEPT ![2] = b[3]]
                   \* only the number of members that have come matters later
                   /\ order' = SetToSortSeq({s} \cup ToSet(order), <)
          /\ UNCHANGED <<gen, pc, tied, fv, draws, pop>>

(* Members with the combined mutations *)
Combined(r) == [b \in 1..Cutoff |->
    IF Algo # "mod" \/ \A i \in Points : ben[r][b][i][1] = None THEN <<>>
    ELSE <<Apply(kids[r][b], [i \in Points |-> ben[r][b][i][1]])>>]

(* What was evaluated: <<member, fitness>> *)
Evaluated(r) == [s \in 1..N1 |-> <<kids[r][s], fit[r][s]>>]
                \o FoldLeft(LAMBDA x, b : x \o b, <<>>,
                            [b \in 1..Cutoff |-> [k \in 1..Len(Combined(r)[b]) |-> <<Combined(r)[b][k], fv[Combined(r)[b][k]]>>]])

Ties(e) == \E i, j \in 1..Len(e) : e[i][1] # e[j][1] /\ e[i][2] = e[j][2]

Ranked(r) == LET e == SortSeq(Evaluated(r), LAMBDA a, b : a[2] > b[2])
             IN [i \in 1..Size |-> IF i <= Len(e) THEN e[i] ELSE <<kids[r][1], Lowest>>]

Rank == /\ pc = "evaluate" /\ Len(order) = N1
        /\ tied' = Ties(Evaluated(1))
        /\ pop' = [r \in Runs |-> [i \in 1..Size |-> Ranked(r)[i][1]]]
        /\ fit' = [r \in Runs |-> [i \in 1..Size |-> Ranked(r)[i][2]]]
        /\ pc' = "ended"
        /\ UNCHANGED <<gen, fv, draws, kids, ben, order>>

Next == Breed \/ Arrive \/ Rank
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Bag(e) == [x \in ToSet(e) |-> Cardinality({i \in 1..Len(e) : e[i] = x})]

(* Both runs have evaluated the same members *)
SameMembers == (pc = "evaluate" /\ Len(order) = N1 /\ ~Ties(Evaluated(1))) => Bag(Evaluated(1)) = Bag(Evaluated(2))

(* and rank them equally *)
SameRanks == (pc = "ended" /\ ~tied) => pop[1] = pop[2] /\ fit[1] = fit[2]
=============================================================================
