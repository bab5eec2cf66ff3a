------------------------------ MODULE Genetic ------------------------------
(***************************************************************************)
(* Design of the two genetic algorithms (algorithm/modifiedgenetic.go,     *)
(* algorithm/simple.go) and the parallel evaluator                         *)
(* (algorithm/evaluator/parallel.go), at the grain of the code: one action *)
(* per submission, start and completion of a worker task, per result       *)
(* received from the channel, per combined member and per sort.  Every     *)
(* interleaving of the workers, every outcome of the unstable sort and     *)
(* every choice of mutations is explored.                                  *)
(*                                                                         *)
(* The observable events of each action are fed to the automaton of        *)
(* GeneticMon (variable m), which decides C01-C06 and C09; the invariants  *)
(* below state the same properties directly on the design's state where    *)
(* that says more.                                                         *)
(***************************************************************************)
EXTENDS GeneticMon, TLC

CONSTANTS Algo,     \* "mod" or "simple"
          Size, Cutoff, NPts, MaxGen,
          Coords,   \* values of a point
          FitVals,  \* values of the landscape, plus FitShift
          FitShift,
          MaxMuts,  \* bound on the mutations of an offspring
          Eager,    \* workers start as soon as they are submitted
          InitMode, \* "same": all members start equal; "any"
          AnySort,  \* explore every outcome of the unstable sort, or only two
          Bug       \* "none", or a deviation to check that it is noticed

Slots  == 1..Size
NegInf == -1000            \* below every fitness
Tuples == [1..NPts -> Coords]
P1     == IF Algo = "mod" THEN Size - Cutoff ELSE Size

VARIABLES
    land,    \* the landscape: fitness of every point group
    pop,     \* pop[i]: points of member i
    fit,     \* fit[i]
    fn,      \* fn[i]: the function of member i
    muts,    \* muts[i]: reported mutations of member i
    geom,    \* geom[f]: the points whose geometry function f holds (<<>>: none)
    base,    \* base[f]: base announced to f (0: none)
    given,   \* given[f]: the cache f reads (0: its own)
    wcache, rcache,  \* the cache being written, and the other one
    phase,   \* "new", "submit", "run", "combine", "sort", "done"
    nsub,    \* submitted tasks
    running, \* started and unfinished tasks
    waiting, \* submitted and unstarted tasks
    chan,    \* results not received yet
    nrecv,   \* received results
    ben,     \* ben[j]: beneficial mutations of base j
    ncomb,   \* combined bases
    gen, best, bestFit,
    m        \* GeneticMon

design == <<land, pop, fit, fn, muts, geom, base, given, wcache, rcache, phase, nsub, running,
            waiting, chan, nrecv, ben, ncomb, gen, best, bestFit>>
vars == <<land, pop, fit, fn, muts, geom, base, given, wcache, rcache, phase, nsub, running,
          waiting, chan, nrecv, ben, ncomb, gen, best, bestFit, m>>

Conf == [algo |-> Algo, ev |-> "parallel", size |-> Size, cutoff |-> Cutoff, npts |-> NPts,
         iv |-> [i \in Slots |-> land[m.inits[i]]]]

Emit(es) == m' = Steps(Conf, m, es)

InitialPops == IF InitMode = "same" THEN {[i \in Slots |-> [k \in 1..NPts |-> CHOOSE c \in Coords : TRUE]]}
               ELSE [Slots -> Tuples]

Init == /\ land \in [Tuples -> {v - FitShift : v \in FitVals}]
        /\ pop \in InitialPops
        /\ fit = [i \in Slots |-> IF i > P1 /\ Bug # "sentinel0" THEN NegInf ELSE 0]
        /\ fn = [i \in Slots |-> i]
        /\ muts = [i \in Slots |-> <<>>]
        /\ geom = [f \in Slots |-> <<>>]
        /\ base = [f \in Slots |-> 0]
        /\ given = [f \in Slots |-> 0]
        /\ wcache = 1 /\ rcache = 2
        /\ phase = "submit" /\ nsub = 0 /\ running = {} /\ waiting = {} /\ chan = <<>> /\ nrecv = 0
        /\ ben = [j \in 1..Cutoff |-> <<>>]
        /\ ncomb = 0
        /\ gen = 0 /\ best = pop[1] /\ bestFit = NegInf
        /\ m = [Init0 EXCEPT !.g = 0, !.inits = [i \in Slots |-> pop[i]]]

---------------------------------------------------------------------------
(* newGeneration *)

(* The ways to mutate a point group: a sequence of mutations in index order *)
MutChoices(p) ==
    {q \in [1..NPts -> Coords \cup {-1}] : Cardinality({i \in 1..NPts : q[i] # -1}) <= MaxMuts}

RECURSIVE MutSeq(_, _, _)
MutSeq(p, q, i) == IF i > NPts THEN <<>>
                   ELSE (IF q[i] = -1 THEN <<>> ELSE <<[i |-> i, o |-> p[i], n |-> q[i]]>>)
                        \o MutSeq(p, q, i + 1)

Apply(p, ms) == [i \in 1..NPts |-> IF \E j \in 1..Len(ms) : ms[j].i = i
                                   THEN ms[CHOOSE j \in 1..Len(ms) : ms[j].i = i].n ELSE p[i]]

Offspring == (Cutoff + 1)..P1
BaseOf(i) == ((i - 1) % Cutoff) + 1

(* The mutations of all offspring of a generation *)
GenerationChoices == [Offspring -> MutChoices(pop[1])]

NewGeneration ==
    /\ phase = "new"
    /\ gen < MaxGen
    /\ \E Q \in GenerationChoices :
         LET ms(i) == MutSeq(pop[BaseOf(i)], Q[i], 1)
             newpop == [i \in Slots |->
                          IF i \in Offspring THEN Apply(pop[BaseOf(i)], ms(i))
                          ELSE pop[i]]   \* elites; the combined members are set later
             baseEvents == [k \in 1..Cardinality(Offspring) |->
                              [e |-> "base", f |-> fn[Cutoff + k], b |-> fn[BaseOf(Cutoff + k)]]]
         IN /\ pop' = IF Bug = "mutateelite" /\ Offspring # {}
                      THEN [newpop EXCEPT ![1] = newpop[Cutoff + 1]] ELSE newpop
            /\ muts' = [i \in Slots |-> IF i \in Offspring THEN ms(i) ELSE <<>>]
            /\ base' = [f \in Slots |->
                          IF \E i \in Offspring : fn[i] = f
                          THEN fn[BaseOf(CHOOSE i \in Offspring : fn[i] = f)] ELSE base[f]]
            /\ Emit(<<[e |-> "gen", g |-> gen + 1]>> \o baseEvents)
    /\ ben' = [j \in 1..Cutoff |-> <<>>]
    /\ gen' = gen + 1
    /\ phase' = "submit" /\ nsub' = 0 /\ nrecv' = 0 /\ ncomb' = 0
    /\ UNCHANGED <<land, fit, fn, geom, given, wcache, rcache, running, waiting, chan, best, bestFit>>

---------------------------------------------------------------------------
(* calculateFitnesses *)

StartEffect(i) ==   \* Calculate begins: the geometry is brought up to date
    LET f == fn[i] IN
    /\ geom' = [geom EXCEPT ![f] =
                  IF @ = <<>> THEN pop[i]
                  ELSE IF base[f] # 0
                  THEN Apply(geom[base[f]], muts[i])
                  ELSE @]
    /\ base' = [base EXCEPT ![f] = 0]
    /\ Emit(<<[e |-> "start", f |-> f, k |-> Len(m.evs) + 1, pts |-> pop[i], muts |-> muts[i],
               rb |-> given[f]]>>)

Submit ==
    /\ phase = "submit" /\ nsub < P1
    /\ nsub' = nsub + 1
    /\ IF Eager THEN /\ StartEffect(nsub + 1)
                     /\ running' = running \cup {nsub + 1}
                     /\ UNCHANGED waiting
                ELSE /\ waiting' = waiting \cup {nsub + 1}
                     /\ UNCHANGED <<running, geom, base, m>>
    /\ UNCHANGED <<land, pop, fit, fn, muts, given, wcache, rcache, phase, chan, nrecv, ben, ncomb,
                   gen, best, bestFit>>

StartTask(i) ==
    /\ i \in waiting
    /\ waiting' = waiting \ {i} /\ running' = running \cup {i}
    /\ StartEffect(i)
    /\ UNCHANGED <<land, pop, fit, fn, muts, given, wcache, rcache, phase, nsub, chan, nrecv, ben,
                   ncomb, gen, best, bestFit>>

(* The evaluation index of the task of slot i in this generation *)
KOf(i) == CHOOSE k \in 1..Len(m.evs) : m.evs[k].f = fn[i]

Finish(i) ==
    /\ i \in running
    /\ running' = running \ {i}
    /\ chan' = Append(chan, <<i, land[geom[fn[i]]]>>)   \* the fitness is that of the geometry held
    /\ Emit(<<[e |-> "ret", f |-> fn[i], k |-> KOf(i), v |-> land[geom[fn[i]]], same |-> TRUE]>>)
    /\ UNCHANGED <<land, pop, fit, fn, muts, geom, base, given, wcache, rcache, phase, nsub, waiting,
                   nrecv, ben, ncomb, gen, best, bestFit>>

Prepare ==
    /\ phase = "submit" /\ nsub = P1
    /\ phase' = "run"
    /\ IF Bug = "samecache" THEN UNCHANGED <<wcache, rcache>>
       ELSE wcache' = rcache /\ rcache' = wcache
    /\ UNCHANGED <<land, pop, fit, fn, muts, geom, base, given, nsub, running, waiting, chan, nrecv,
                   ben, ncomb, gen, best, bestFit, m>>

(* setBeneficial: merge the mutations of slot i into those of its base *)
RECURSIVE Merge(_, _, _, _)
Merge(bs, ms, i, ft) ==
    IF ms = <<>> THEN bs
    ELSE LET x == Head(ms)
             dup == {k \in 1..Len(bs) : bs[k].mut.i = x.i}
             entry == [mut |-> x, src |-> i]
             bs1 == IF dup = {} THEN Append(bs, entry)
                    ELSE LET k == CHOOSE k \in dup : TRUE IN
                         IF ft[i] > ft[bs[k].src] \/ Bug = "lastwins" THEN [bs EXCEPT ![k] = entry] ELSE bs
         IN Merge(bs1, Tail(ms), i, ft)

(* A group whose points all coincide has no shapes, so its evaluation leaves no results to store. *)
NoShapes(p) == Len(p) > 1 /\ \A k \in 2..Len(p) : p[k] = p[1]
UpdateEvents(f, p) ==
    LET set == <<[e |-> "setcache", f |-> f, buf |-> wcache]>>
    IN IF NoShapes(p) THEN (IF Bug = "emptyskip" THEN <<>> ELSE set)
       ELSE <<[e |-> "write", f |-> f, buf |-> wcache]>> \o set
GivenAfter(f, p) == IF Bug = "emptyskip" /\ NoShapes(p) THEN given ELSE [given EXCEPT ![f] = wcache]

Receive ==
    /\ phase = "run" /\ chan # <<>>
    /\ LET d  == Head(chan)
           i  == IF Bug = "misattribute" THEN nrecv + 1 ELSE d[1]
           ft == [fit EXCEPT ![i] = d[2]]
       IN /\ fit' = ft
          /\ given' = GivenAfter(fn[i], pop[i])
          /\ ben' = IF Algo = "mod" /\ d[2] > ft[BaseOf(i)]
                    THEN [ben EXCEPT ![BaseOf(i)] = Merge(@, muts[i], i, ft)] ELSE ben
          /\ Emit(UpdateEvents(fn[i], pop[i]))
    /\ chan' = Tail(chan)
    /\ nrecv' = nrecv + 1
    /\ phase' = IF nrecv' = P1 THEN (IF Algo = "mod" /\ gen > 0 THEN "combine" ELSE "sort") ELSE "run"
    /\ UNCHANGED <<land, pop, fn, muts, geom, base, wcache, rcache, nsub, running, waiting, ncomb, gen,
                   best, bestFit>>

---------------------------------------------------------------------------
(* combineMutations: one member per base, at the end of the population.     *)
(* Base of member i is i % cutoff (indices from 0), as for the offspring.   *)

Combine ==
    /\ phase = "combine" /\ ncomb < Cutoff
    /\ ncomb' = ncomb + 1
    /\ LET i == P1 + ncomb + 1
           j == BaseOf(i)
           f == fn[i]
           ms == [k \in 1..Len(ben[j]) |-> ben[j][k].mut]
           p  == Apply(pop[j], ms)
           g  == IF geom[f] = <<>> THEN p ELSE Apply(geom[fn[j]], ms)
       IN IF ms # <<>>
          THEN /\ pop' = [pop EXCEPT ![i] = p]
               /\ muts' = [muts EXCEPT ![i] = ms]
               /\ geom' = [geom EXCEPT ![f] = g]
               /\ fit' = [fit EXCEPT ![i] = land[g]]
               /\ given' = GivenAfter(f, p)
               /\ Emit(<<[e |-> "base", f |-> f, b |-> fn[j]],
                         [e |-> "start", f |-> f, k |-> Len(m.evs) + 1, pts |-> p, muts |-> ms, rb |-> given[f]],
                         [e |-> "ret", f |-> f, k |-> Len(m.evs) + 1, v |-> land[g], same |-> TRUE]>>
                       \o UpdateEvents(f, p))
          ELSE /\ fit' = [fit EXCEPT ![i] = IF Bug = "sentinel0" THEN 0 ELSE NegInf]
               /\ UNCHANGED <<pop, muts, geom, given, m>>
    /\ phase' = IF ncomb' = Cutoff THEN "sort" ELSE "combine"
    /\ UNCHANGED <<land, fn, base, wcache, rcache, nsub, running, waiting, chan, nrecv, ben, gen, best,
                   bestFit>>

---------------------------------------------------------------------------
(* updateFitnesses: any order that is sorted by fitness                     *)

Before(j, i, rev) == IF fit[j] = fit[i] THEN (IF rev THEN j > i ELSE j < i) ELSE fit[j] > fit[i]
Rank(i, rev) == 1 + Cardinality({j \in Slots : Before(j, i, rev)})
SortOutcomes ==
    IF AnySort THEN {p \in Permutations(Slots) : \A i \in 1..(Size - 1) : fit[p[i]] >= fit[p[i + 1]]}
    ELSE {[r \in Slots |-> CHOOSE i \in Slots : Rank(i, rev) = r] : rev \in BOOLEAN}

Sort ==
    /\ phase = "sort"
    /\ \E pi \in SortOutcomes :
         /\ pop' = [i \in Slots |-> pop[pi[i]]]
         /\ fit' = [i \in Slots |-> fit[pi[i]]]
         /\ fn'  = IF Bug = "noswap" THEN fn ELSE [i \in Slots |-> fn[pi[i]]]
         /\ best' = pop[pi[1]]
         /\ bestFit' = fit[pi[1]]
         /\ Emit(<<[e |-> "end", g |-> gen, best |-> pop[pi[1]], bf |-> fit[pi[1]], gen |-> gen]>>)
    /\ phase' = "new"
    /\ UNCHANGED <<land, muts, geom, base, given, wcache, rcache, nsub, running, waiting, chan, nrecv,
                   ben, ncomb, gen>>

Next == \/ NewGeneration \/ Submit \/ Prepare \/ Receive \/ Combine \/ Sort
        \/ \E i \in Slots : StartTask(i) \/ Finish(i)

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Submit) /\ WF_vars(Prepare) /\ WF_vars(Receive) /\ WF_vars(Combine)
             /\ WF_vars(Sort) /\ WF_vars(NewGeneration)
             /\ \A i \in Slots : WF_vars(StartTask(i)) /\ WF_vars(Finish(i))

---------------------------------------------------------------------------
(* Properties *)

MonitorOK == m.viol = {}

C01 == "C01" \notin m.viol
C02 == "C02" \notin m.viol
C03 == "C03" \notin m.viol
C04 == "C04" \notin m.viol
C05 == "C05" \notin m.viol
C06 == "C06" \notin m.viol
C09 == "C09" \notin m.viol

(* C02/C06 on the state: after a generation, every evaluated member's function holds exactly its  *)
(* points, and its fitness is the landscape's                                                     *)
GeometryFollows ==
    phase = "new" =>
        \A i \in Slots : fit[i] # NegInf => geom[fn[i]] = pop[i] /\ fit[i] = land[pop[i]]

(* No two members share a function *)
FunctionsDistinct == \A i, j \in Slots : i # j => fn[i] # fn[j]

(* C09: no unfinished evaluation reads the cache that is written while results are received *)
CachesApart == phase = "run" => \A i \in running \cup waiting : given[fn[i]] # wcache

(* C01 *)
Monotone == [][phase = "sort" /\ gen > 0 => bestFit' >= bestFit]_vars

(* C05 *)
EveryGenerationEnds == \A g \in 0..MaxGen : <>(gen = g /\ phase = "new")
===========================================================================
