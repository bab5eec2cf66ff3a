---------------------------- MODULE GeneticMon ----------------------------
(***************************************************************************)
(* The observable behaviour of the genetic algorithms, as an automaton     *)
(* over events.  A run of an algorithm (of the design in Genetic.tla, or   *)
(* of the real code, recorded by the harness) is a sequence of events:     *)
(*                                                                         *)
(*  init   pts            an initial member was created                    *)
(*  gen    g              generation g begins (0: construction)            *)
(*  base   f b            function f was told that its base is function b  *)
(*  start  f k pts muts rb  the k-th evaluation of the generation starts:  *)
(*                        function f evaluates pts, which has the reported *)
(*                        mutations muts; f reads cache rb (0: its own)    *)
(*  ret    f k v same     that evaluation returns v (same: its arguments   *)
(*                        weren't changed meanwhile)                       *)
(*  write  f buf          f's results were stored into cache buf           *)
(*  setcache f buf        f was given cache buf to read from now on        *)
(*  end    g best bf gen  the generation is over; what is reported then    *)
(*  abort                 the run panicked or hung                         *)
(*                                                                         *)
(* Step(c, m, e) is the state after event e; m.viol collects the ids of    *)
(* the properties that the run has violated so far.  c holds the           *)
(* configuration: algo, ev (kind of evaluator), size, cutoff, npts and     *)
(* iv, the fitnesses of the initial members.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C09"}

Init0 == [ g     |-> -1,        \* generation
           inits |-> <<>>,      \* initial members
           evs   |-> <<>>,      \* evaluations of this generation
           prev  |-> <<>>,      \* evaluations of the previous generation
           pb    |-> <<>>,      \* pb[f]: base announced and not yet used (0: none)
           last  |-> <<>>,      \* last[f]: points f evaluated last (<<>>: none)
           given |-> <<>>,      \* given[f]: cache f was given last (0: none)
           wr    |-> {},        \* <<f, buf>>: results stored in this generation
           bf    |-> -1000000000, \* best fitness reported last
           viol  |-> {} ]

(* Functions 1..Len(s), extended on demand *)
At(s, f, d) == IF f \in 1..Len(s) THEN s[f] ELSE d
Put(s, f, x, d) == [i \in 1..(IF f > Len(s) THEN f ELSE Len(s)) |->
                       IF i = f THEN x ELSE At(s, i, d)]

Min2(a, b) == IF a < b THEN a ELSE b

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

(* The number of members evaluated concurrently in every generation *)
N1(c) == IF c.algo = "mod" THEN c.size - c.cutoff ELSE c.size

---------------------------------------------------------------------------
(* Mutations *)

WellFormed(pts, muts) ==
    \A i \in 1..Len(muts) :
        /\ muts[i].i \in 1..Len(pts)
        /\ pts[muts[i].i] = muts[i].n
        /\ \A j \in 1..Len(muts) : muts[j].i = muts[i].i => j = i

(* The points before the mutations *)
Undo(pts, muts) ==
    [i \in 1..Len(pts) |->
        IF \E j \in 1..Len(muts) : muts[j].i = i
        THEN muts[CHOOSE j \in 1..Len(muts) : muts[j].i = i].o
        ELSE pts[i]]

Origin(ev) == Undo(ev.pts, ev.muts)

---------------------------------------------------------------------------
(* Selection.  The elites of a generation are cutoff members of the         *)
(* previous one with the highest fitnesses; members tied for the last       *)
(* places are interchangeable.                                              *)

NumAtLeast(evs, v) == Cardinality({j \in 1..Len(evs) : evs[j].v >= v})
NumAbove(evs, v)   == Cardinality({j \in 1..Len(evs) : evs[j].v > v})

(* The fitness of the last elite *)
Threshold(evs, cutoff) ==
    Max({evs[j].v : j \in {k \in 1..Len(evs) : NumAtLeast(evs, evs[k].v) >= cutoff}})

Strict(evs, cutoff) == LET t == Threshold(evs, cutoff) IN {j \in 1..Len(evs) : evs[j].v > t}
Tied(evs, cutoff)   == LET t == Threshold(evs, cutoff) IN {j \in 1..Len(evs) : evs[j].v = t}

Count(evs, S, p) == Cardinality({j \in S : evs[j].pts = p})

Unmutated(evs) == {j \in 1..Len(evs) : evs[j].muts = <<>>}

ElitesSurvive(prev, evs, cutoff) ==
    LET strict == Strict(prev, cutoff)
        tied   == Tied(prev, cutoff)
        U      == Unmutated(evs)
        sp     == {prev[j].pts : j \in strict}
        tp     == {prev[j].pts : j \in tied}
    IN /\ \A p \in sp : Count(evs, U, p) >= Count(prev, strict, p)
       /\ MapThenSumSet(LAMBDA p : Min2(Count(evs, U, p), Count(prev, tied, p)), tp)
            >= cutoff - Cardinality(strict)

OffspringOK(prev, evs, cutoff, npts) ==
    LET U  == Unmutated(evs)
        sp == {prev[j].pts : j \in Strict(prev, cutoff)}
        tp == {prev[j].pts : j \in Tied(prev, cutoff)}
        ep == sp \cup {p \in tp : Count(evs, U, p) >= 1}
    IN \A k \in 1..Len(evs) :
          /\ Len(evs[k].pts) = npts
          /\ WellFormed(evs[k].pts, evs[k].muts)
          /\ Origin(evs[k]) \in ep

(* In the initial generation the members are the initial ones *)
InitialOK(inits, evs) ==
    \A k \in 1..Len(evs) :
        /\ evs[k].muts = <<>>
        /\ Cardinality({j \in 1..Len(evs) : evs[j].pts = evs[k].pts})
             <= Cardinality({j \in 1..Len(inits) : inits[j] = evs[k].pts})

---------------------------------------------------------------------------
(* Combination of beneficial mutations                                      *)

(* Offspring are grouped by the elite they come from: by the base function  *)
(* if every member has its own function, and by the elite's points if not   *)
KeyOf(c, ev) == IF c.ev = "parallel" THEN <<ev.b>> ELSE Origin(ev)

Phase1(c, evs) == {k \in 1..Len(evs) : k <= N1(c)}
Phase2(c, evs) == {k \in 1..Len(evs) : k > N1(c)}

EliteOf(c, evs, k) ==      \* The evaluation of the elite that k comes from
    IF c.ev = "parallel"
    THEN {j \in Phase1(c, evs) : evs[j].f = evs[k].b}
    ELSE {j \in Phase1(c, evs) : evs[j].muts = <<>> /\ evs[j].pts = Origin(evs[k])}

Ambiguous(c, prev) ==      \* Elites can't be told apart
    /\ c.ev # "parallel"
    /\ \E j, k \in Strict(prev, c.cutoff) \cup Tied(prev, c.cutoff) :
           j # k /\ prev[j].pts = prev[k].pts

CombinedOK(c, evs, prev) ==
    LET P1 == Phase1(c, evs)
        P2 == Phase2(c, evs)
        mutated == {k \in P1 : evs[k].muts # <<>>}
        keys == {KeyOf(c, evs[k]) : k \in mutated}
        elite(k) == CHOOSE j \in EliteOf(c, evs, k) : TRUE
        fitter(key) == {k \in mutated : /\ KeyOf(c, evs[k]) = key
                                        /\ evs[k].v > evs[elite(k)].v}
        indices(S) == {evs[k].muts[j].i : <<k, j>> \in
                          {<<x, y>> \in S \X (1..c.npts) : y <= Len(evs[x].muts)}}
        \* the values that the fittest of the members S that mutated index i gave it
        newAt(S, i) == LET T == {k \in S : \E j \in 1..Len(evs[k].muts) : evs[k].muts[j].i = i}
                           best == Max({evs[k].v : k \in T})
                       IN {evs[k].pts[i] : k \in {x \in T : evs[x].v = best}}
        combined(key) == {k \in P2 : KeyOf(c, evs[k]) = key}
    IN /\ \A k \in mutated : EliteOf(c, evs, k) # {}
       /\ \A k \in P2 : KeyOf(c, evs[k]) \in keys
       /\ \A key \in keys :
            LET S == fitter(key)
                I == indices(S)
            IN IF S = {} THEN combined(key) = {}
               ELSE /\ Cardinality(combined(key)) = 1
                    /\ \A k \in combined(key) :
                         LET e == evs[elite(k)].pts IN
                         /\ WellFormed(evs[k].pts, evs[k].muts)
                         /\ {evs[k].muts[j].i : j \in 1..Len(evs[k].muts)} = I
                         /\ Origin(evs[k]) = e
                         /\ Len(evs[k].pts) = Len(e)
                         /\ \A i \in 1..Len(e) :
                                IF i \in I THEN evs[k].pts[i] \in newAt(S, i)
                                ELSE evs[k].pts[i] = e[i]

---------------------------------------------------------------------------
(* Evaluation contexts (one function per member)                            *)

ContextOK(m, ev) ==
    IF ev.b = 0
    THEN /\ ev.muts = <<>>
         /\ ev.last = <<>> \/ ev.last = ev.pts
    ELSE /\ m.g > 0
         /\ \E j \in 1..Len(m.evs) :
               /\ m.evs[j].f = ev.b
               /\ m.evs[j].b = 0 \/ ev.b = ev.f
               /\ m.evs[j].muts = <<>>
               /\ m.evs[j].pts = Origin(ev)

---------------------------------------------------------------------------
(* Caches                                                                   *)

(* What the caller wrote into the groups it received is encoded as Poison *)
Poison == -2
Untouched(e) == /\ \A i \in 1..Len(e.pts) : e.pts[i] # Poison
                /\ \A i \in 1..Len(e.muts) : e.muts[i].o # Poison /\ e.muts[i].n # Poison

OnStart(c, m, e) ==
    LET ev == [f |-> e.f, pts |-> e.pts, muts |-> e.muts, rb |-> e.rb, b |-> At(m.pb, e.f, 0),
               last |-> At(m.last, e.f, <<>>), done |-> FALSE, v |-> 0]
        m1 == [m EXCEPT !.evs = Append(@, ev), !.pb = Put(@, e.f, 0, 0)]
        m2 == Flag(m1, "C05", e.k = Len(m1.evs))
        m3 == Flag(m2, "C06", c.ev = "parallel" =>
                                 ~ \E j \in 1..Len(m.evs) : m.evs[j].f = e.f)
        m4 == Flag(m3, "C02", Untouched(e))
    IN Flag(m4, "C09", c.ev = "parallel" /\ Len(m1.evs) <= N1(c) =>
                          ~ \E w \in m.wr : w[2] = e.rb)

OnRet(c, m, e) ==
    IF e.k \notin 1..Len(m.evs) THEN Flag(m, "C05", FALSE)
    ELSE LET m1 == [m EXCEPT !.evs[e.k].done = TRUE, !.evs[e.k].v = e.v]
             m2 == Flag(m1, "C05", ~m.evs[e.k].done)
         IN Flag(m2, "C03", e.same)

OnWrite(c, m, e) ==
    LET m1 == [m EXCEPT !.wr = @ \cup {<<e.f, e.buf>>}]
    IN Flag(m1, "C09", \A j \in 1..Len(m.evs) : ~m.evs[j].done => m.evs[j].rb # e.buf)

(* A generation is over: judges its evaluations *)
OnOver(c, m) ==
    LET evs == m.evs
        n   == Len(evs)
        complete == n >= N1(c) /\ \A k \in 1..n : evs[k].done
        mA == Flag(m, "C05",
                  /\ complete
                  /\ IF c.algo = "mod" /\ m.g > 0 THEN n <= c.size ELSE n = N1(c)
                  /\ m.g > 0 => ElitesSurvive(m.prev, evs, c.cutoff))
        mD == Flag(mA, "C03",
                  IF m.g = 0 THEN InitialOK(m.inits, evs)
                  ELSE /\ ElitesSurvive(m.prev, evs, c.cutoff)
                       /\ OffspringOK(m.prev, evs, c.cutoff, c.npts))
        mE == Flag(mD, "C04", c.algo = "mod" /\ m.g > 0 /\ ~Ambiguous(c, m.prev)
                                 => complete /\ CombinedOK(c, evs, m.prev))
        mF == Flag(mE, "C06", c.ev = "parallel" => \A k \in 1..n : ContextOK(m, evs[k]))
        used == {evs[k].f : k \in 1..n}
    IN Flag(mF, "C09", c.ev = "parallel" =>
                  \E B \in {At(m.given, f, 0) : f \in used} :
                     /\ B # 0
                     /\ \A f \in used : At(m.given, f, 0) = B
                     /\ \A w \in m.wr : w[1] \in used => w[2] = B)

(* The caller looks at the result, which it need not do after every generation *)
OnEnd(c, m, e) ==
    LET evs  == m.evs
        n    == Len(evs)
        complete == n >= N1(c) /\ \A k \in 1..n : evs[k].done
        vals == {evs[k].v : k \in 1..n}
        m0 == OnOver(c, m)
        mA == Flag(m0, "C05", complete /\ e.gen = m.g /\ e.g = m.g /\ e.bf = Max(vals))
        mB == Flag(mA, "C01", IF m.g = 0 THEN \E i \in 1..Len(c.iv) : c.iv[i] = e.bf
                                         ELSE e.bf >= m.bf)
        mC == Flag(mB, "C02", /\ complete
                              /\ e.bf = Max(vals)
                              /\ \E k \in 1..n : evs[k].pts = e.best /\ evs[k].v = e.bf)
    IN [mC EXCEPT !.bf = e.bf]

(* The next generation starts *)
OnGen(c, m, e) ==
    LET n == Len(m.evs)
    IN [m EXCEPT !.g = e.g, !.prev = m.evs, !.evs = <<>>, !.wr = {},
                 !.last = IF n = 0 THEN @
                          ELSE [f \in 1..c.size |->
                              IF \E k \in 1..n : m.evs[k].f = f
                              THEN m.evs[CHOOSE k \in 1..n : m.evs[k].f = f].pts
                              ELSE At(m.last, f, <<>>)]]

Step(c, m, e) ==
    CASE e.e = "init"     -> [m EXCEPT !.inits = Append(@, e.pts)]
      [] e.e = "gen"      -> OnGen(c, m, e)
      [] e.e = "base"     -> [m EXCEPT !.pb = Put(@, e.f, e.b, 0)]
      [] e.e = "start"    -> OnStart(c, m, e)
      [] e.e = "ret"      -> OnRet(c, m, e)
      [] e.e = "write"    -> OnWrite(c, m, e)
      [] e.e = "setcache" -> [m EXCEPT !.given = Put(@, e.f, e.buf, 0)]
      [] e.e = "end"      -> OnEnd(c, m, e)
      [] e.e = "over"     -> OnOver(c, m)
      [] OTHER            -> [m EXCEPT !.viol = AllProps]

RECURSIVE Steps(_, _, _)
Steps(c, m, es) == IF es = <<>> THEN m ELSE Steps(c, Step(c, m, Head(es)), Tail(es))
===========================================================================
