-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Callers that use a function at the same time. A call reads its input    *)
(* and works on its memory piece by piece, then returns what is there. The *)
(* result belongs to the caller, who may read or overwrite it later.       *)
(* Inputs have two parts; the result of an input is the input.             *)
(* Bug: "shared"  (all calls work in the same memory),                     *)
(*      "kept"    (the memory is reused by a caller's next call),          *)
(*      "memo"    (results are remembered by the first part of the input), *)
(*      "last"    (the last input is taken for the same if the first part  *)
(*                 is), "place" (the input is changed in the course)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Callers, Calls, Bug

Parts  == 1..2
Inputs == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
(* Memory: address -> two parts. Address 0 is shared. *)
Addr == 0..(Callers * Calls)

VARIABLES mem, pc, arg, at, left, held, memo, last, ins
vars == <<mem, pc, arg, at, left, held, memo, last, ins>>

(* held: results that callers hold: <<caller, address, input, spoilt>> *)
Init == /\ mem = [a \in Addr |-> <<0, 0>>]
        /\ pc = [c \in 1..Callers |-> 0]          \* 0: idle, 1..2: the part to do next, 3: done
        /\ arg = [c \in 1..Callers |-> <<0, 0>>]
        /\ at = [c \in 1..Callers |-> 0]
        /\ left = [c \in 1..Callers |-> Calls]
        /\ held = {}
        /\ memo = [p \in Parts |-> <<0, 0>>]
        /\ last = <<<<0, 0>>, <<0, 0>>>>          \* the last input and its result
        /\ ins = [x \in Inputs |-> x]             \* what the callers' inputs hold

Address(c) == IF Bug = "shared" THEN 0
              ELSE IF Bug = "kept" THEN c
              ELSE (c - 1) * Calls + (Calls - left[c]) + 1

Begin(c) == /\ pc[c] = 0 /\ left[c] > 0
            /\ \E x \in Inputs : arg' = [arg EXCEPT ![c] = x]
            /\ at' = [at EXCEPT ![c] = Address(c)]
            /\ pc' = [pc EXCEPT ![c] = 1]
            /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ UNCHANGED <<mem, held, memo, last, ins>>

Work(c) == /\ pc[c] \in Parts
           /\ LET x == arg[c]
                  i == pc[c]
              IN /\ mem' = [mem EXCEPT ![at[c]][i] = ins[x][i]]
                 /\ ins' = IF Bug = "place" /\ i = 1 THEN [ins EXCEPT ![x] = <<@[2], @[1]>>] ELSE ins
           /\ pc' = [pc EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<arg, at, left, held, memo, last>>

End(c) == /\ pc[c] = 3
          /\ LET x == arg[c]
                 k == x[1]
                 r == IF Bug = "memo" /\ memo[k] # <<0, 0>> THEN memo[k]
                      ELSE IF Bug = "last" /\ last[1][1] = k THEN last[2]
                      ELSE mem[at[c]]
             IN /\ mem' = [mem EXCEPT ![at[c]] = r]
                /\ memo' = [memo EXCEPT ![k] = r]
                /\ last' = <<x, r>>
                /\ held' = held \cup {<<c, at[c], x, FALSE>>}
          /\ pc' = [pc EXCEPT ![c] = 0]
          /\ UNCHANGED <<arg, at, left, ins>>

Spoil == \E h \in held : /\ ~h[4]
                         /\ mem' = [mem EXCEPT ![h[2]] = <<9, 9>>]
                         /\ held' = (held \ {h}) \cup {<<h[1], h[2], h[3], TRUE>>}
                         /\ UNCHANGED <<pc, arg, at, left, memo, last, ins>>

Next == Spoil \/ \E c \in 1..Callers : Begin(c) \/ Work(c) \/ End(c)
Spec == Init /\ [][Next]_vars

(* Whenever a caller looks, its results are those of their inputs, unless it changed them *)
Right == \A h \in held : h[4] \/ mem[h[2]] = h[3]
Untouched == \A x \in Inputs : ins[x] = x
=============================================================================
