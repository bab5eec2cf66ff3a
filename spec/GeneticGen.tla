---------------------------- MODULE GeneticGen ----------------------------
(* Turns behaviours of the design (TLC -simulate) into scenarios for the    *)
(* real code: the initial members, the landscape, the mutations of every    *)
(* offspring and the completion order of every generation.                  *)
EXTENDS Genetic, Json, IOUtils, SequencesExt, Randomization

VARIABLES smuts, sorders, order, init0

(* Fixed pseudo-random landscapes and initial members *)
Seed0 == atoi(IOEnv.GENSEED)
RECURSIVE Hash(_, _)
Hash(s, h) == IF s = <<>> THEN h ELSE Hash(Tail(s), ((h * 31 + Head(s) * 7 + 3) * 37) % 10007)
Vals == LET S == FitVals IN Cardinality(S)
LandOf(sd) == [t \in Tuples |-> ((Hash(t, sd * 13 + 5) \div 7) % Vals) - FitShift]
PopOf(sd)  == [i \in Slots |-> [k \in 1..NPts |-> Hash(<<i, k, sd>>, sd) % Cardinality(Coords)]]

(* A random choice instead of all of them *)
RandomGeneration == {TLCEval([i \in Offspring |->
                        LET n == RandomElement(0..(IF gen >= 0 THEN MaxMuts ELSE 0)) \* gen: not a constant, so drawn anew
                            S == RandomSubset(n, 1..NPts)
                        IN TLCEval([k \in 1..NPts |-> IF k \in S THEN RandomElement(Coords) ELSE -1])])}

GInit == /\ \E sd \in Seed0..(Seed0 + 200) :
              /\ land = LandOf(sd)
              /\ pop = PopOf(sd)
         /\ fit = [i \in Slots |-> IF i > P1 THEN NegInf ELSE 0]
         /\ fn = [i \in Slots |-> i] /\ muts = [i \in Slots |-> <<>>]
         /\ geom = [f \in Slots |-> <<>>] /\ base = [f \in Slots |-> 0] /\ given = [f \in Slots |-> 0]
         /\ wcache = 1 /\ rcache = 2
         /\ phase = "submit" /\ nsub = 0 /\ running = {} /\ waiting = {} /\ chan = <<>> /\ nrecv = 0
         /\ ben = [j \in 1..Cutoff |-> <<>>] /\ ncomb = 0
         /\ gen = 0 /\ best = pop[1] /\ bestFit = NegInf
         /\ m = [Init0 EXCEPT !.g = 0, !.inits = [i \in Slots |-> pop[i]]]
         /\ smuts = <<>> /\ sorders = <<>> /\ order = <<>>
         /\ init0 = pop

Code(p) == [k \in 1..NPts |-> p[k] * 128]

GNext == /\ Next
         /\ UNCHANGED init0
         /\ smuts' = IF gen' # gen
                     THEN Append(smuts, [k \in 1..Cardinality(Offspring) |->
                             [j \in 1..Len(muts'[Cutoff + k]) |->
                                 [i |-> muts'[Cutoff + k][j].i, n |-> muts'[Cutoff + k][j].n * 128]]])
                     ELSE smuts
         /\ order' = IF Len(chan') > Len(chan) THEN Append(order, chan'[Len(chan')][1] - 1)
                     ELSE IF phase = "sort" THEN <<>> ELSE order
         /\ sorders' = IF phase = "sort" THEN Append(sorders, order) ELSE sorders

GSpec == GInit /\ [][GNext]_<<vars, smuts, sorders, order, init0>>

Scenario == [ seed |-> 1, algo |-> Algo, ev |-> "parallel", size |-> Size, cutoff |-> Cutoff,
              npts |-> NPts, gens |-> MaxGen, landscape |-> "table", order |-> "model",
              init |-> [i \in Slots |-> Code(init0[i])],
              muts |-> smuts, orders |-> sorders,
              table |-> LET S == SetToSeq(Tuples) IN [k \in 1..Len(S) |-> [p |-> Code(S[k]), v |-> land[S[k]]]] ]

EmitScenario == (phase = "new" /\ gen = MaxGen) => PrintT("SCN " \o ToJson(Scenario))
===========================================================================
