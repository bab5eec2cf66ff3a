---------------------------- MODULE FitnessCache ----------------------------
(***************************************************************************)
(* Design of the cached evaluation of fitness functions by the parallel    *)
(* evaluator.  A function adds up the values of the shapes of its member;  *)
(* it looks each one up in the cache it was given, calculates it if it     *)
(* isn't there, and lists all of them.  There are two caches: what a       *)
(* generation's functions listed is put into one while the functions that  *)
(* are still running read from the other.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NShapes,   \* 1..NShapes
          Size,      \* entries of a cache
          NF,        \* functions
          Gens,      \* generations
          Bug        \* "none", "hashonly", "aliaskey", "samecache", "ownslot"

VARIABLES caches,    \* the two caches: slot -> <<shape, value, slot>>, or <<>>
          cur,       \* the one that is written to
          f,         \* the functions
          gen, prep
vars == <<caches, cur, f, gen, prep>>

Shapes   == 1..NShapes
Value(s) == 10 * s
Hash(s)  == s \div 2              \* some collide even in a large cache
Slot(s, n) == Hash(s) % n

Geos == {<<s>> : s \in Shapes} \cup {<<s, t>> : s, t \in Shapes}

TrueSum(g) == IF Len(g) = 1 THEN Value(g[1]) ELSE Value(g[1]) + Value(g[2])

None == <<>>

Init == /\ caches = [k \in 1..2 |-> [i \in 0..(Size - 1) |-> None]]
        /\ cur = 1
        \* uses 0: its own cache of one entry, which is empty at first
        /\ f = [i \in 1..NF |-> [ph |-> "idle", uses |-> 0, geo |-> <<>>, pos |-> 1, out |-> <<>>, sum |-> 0]]
        /\ gen = 0 /\ prep = TRUE

StartGeneration ==
    /\ gen < Gens /\ prep
    /\ \A i \in 1..NF : f[i].ph = "idle"
    /\ \E g \in [1..NF -> Geos] :
         f' = [i \in 1..NF |-> [f[i] EXCEPT !.ph = "run", !.geo = g[i], !.pos = 1, !.out = <<>>, !.sum = 0]]
    /\ gen' = gen + 1 /\ prep' = FALSE
    /\ UNCHANGED <<caches, cur>>

Prepare ==
    /\ ~prep
    /\ prep' = TRUE
    /\ cur' = IF Bug = "samecache" THEN cur ELSE 3 - cur
    /\ UNCHANGED <<caches, f, gen>>

(* What a function finds for a shape *)
Found(i, s) ==
    LET n == IF f[i].uses = 0 THEN 1 ELSE Size
        e == IF f[i].uses = 0 THEN None ELSE caches[f[i].uses][Slot(s, n)]
    IN IF e = None THEN None
       ELSE IF Bug = "hashonly" THEN (IF Hash(e[1]) = Hash(s) THEN e ELSE None)
       ELSE IF e[1] = s THEN e ELSE None

(* With the key of all entries being the same memory *)
Alias(out, s) == IF Bug = "aliaskey" THEN [k \in 1..Len(out) |-> <<s, out[k][2], out[k][3]>>] ELSE out

Look(i) ==
    /\ f[i].ph = "run" /\ f[i].pos <= Len(f[i].geo)
    /\ LET s == f[i].geo[f[i].pos]
           e == Found(i, s)
           n == IF f[i].uses = 0 THEN 1 ELSE Size
           new == IF e # None THEN e ELSE <<s, Value(s), Slot(s, n)>>
       IN f' = [f EXCEPT ![i].out = Append(IF e = None THEN Alias(@, s) ELSE @, new),
                         ![i].sum = @ + new[2], ![i].pos = @ + 1]
    /\ UNCHANGED <<caches, cur, gen, prep>>

(* The results of a function that is done are put into the current cache *)
RECURSIVE PutAll(_, _)
PutAll(c, out) == IF out = <<>> THEN c
                  ELSE PutAll([c EXCEPT ![IF Bug = "ownslot" THEN 0 ELSE Head(out)[3]] = Head(out)], Tail(out))

Update(i) ==
    /\ prep /\ f[i].ph = "run" /\ f[i].pos > Len(f[i].geo)
    /\ caches' = [caches EXCEPT ![cur] = PutAll(@, f[i].out)]
    /\ f' = [f EXCEPT ![i].ph = "idle", ![i].uses = cur]
    /\ UNCHANGED <<cur, gen, prep>>

Next == StartGeneration \/ Prepare \/ (\E i \in 1..NF : Look(i) \/ Update(i))

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* The value is that of the shapes, whatever the caches hold *)
Right == \A i \in 1..NF : f[i].pos > Len(f[i].geo) /\ f[i].geo # <<>> => f[i].sum = TrueSum(f[i].geo)

(* Entries are right, and where they would be looked up unless they stem from a function without a cache *)
Entries == \A k \in 1..2 : \A j \in 0..(Size - 1) : caches[k][j] # None =>
               /\ caches[k][j][2] = Value(caches[k][j][1])
               /\ caches[k][j][3] = j
               /\ j \in {0, Slot(caches[k][j][1], Size)}

(* No cache that a running function reads is written to *)
Apart == [][\A i \in 1..NF : f[i].ph = "run" /\ f'[i].ph = "run" /\ f[i].uses # 0 => caches'[f[i].uses] = caches[f[i].uses]]_vars

Ends == <>(gen = Gens /\ \A i \in 1..NF : f[i].ph = "idle")
=============================================================================
