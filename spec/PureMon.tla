------------------------------ MODULE PureMon ------------------------------
(***************************************************************************)
(* Calls of functions that only convert: the result depends on nothing but *)
(* the inputs, which stay as they are, and belongs to the caller.          *)
(* Results are numbers; for a function and an input, the same number       *)
(* stands for the same result.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Props == {"C29"}
Flag(m, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = Props]

(* m.ref[f][x]: the result of a call in a process that has done nothing else (0: not known yet);
   m.kept: the results callers hold, <<f, x, spoilt>> *)
UInit0(k, x) == [viol |-> {}, ref |-> [f \in 1..k |-> [i \in 1..x |-> 0]], kept |-> <<>>]

OnAlone(m, e) == Flag([m EXCEPT !.ref[e.f][e.x] = e.r], m.ref[e.f][e.x] \in {0, e.r})

OnCall(m, e) == Flag([m EXCEPT !.kept = Append(@, <<e.f, e.x, FALSE>>)],
                     /\ e.n = Len(m.kept) + 1
                     /\ e.in
                     /\ m.ref[e.f][e.x] = e.r)

(* A caller reads a result it got before *)
OnLook(m, e) == LET c == m.kept[e.n] IN Flag(m, ~c[3] /\ m.ref[c[1]][c[2]] = e.r)

(* A caller overwrites a result it got *)
OnSpoil(m, e) == [m EXCEPT !.kept[e.n][3] = TRUE]

UStep(c, m, e) ==
    CASE e.e = "alone"  -> OnAlone(m, e)
      [] e.e = "call"   -> OnCall(m, e)
      [] e.e = "look"   -> OnLook(m, e)
      [] e.e = "spoil"  -> OnSpoil(m, e)
      [] e.e = "inputs" -> Flag(m, e.in)
      [] OTHER          -> [m EXCEPT !.viol = Props]
=============================================================================
