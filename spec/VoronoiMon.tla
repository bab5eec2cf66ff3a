----------------------------- MODULE VoronoiMon -----------------------------
(***************************************************************************)
(* State and observable behaviour of incremental Voronoi diagrams: bags of *)
(* points, as in DelaunayMon.  An observation holds the cells reported by  *)
(* the incremental diagram, and those that the diagram built from an       *)
(* incremental triangulation with the same history reports.                *)
(***************************************************************************)
EXTENDS VoronoiCells, FiniteSetsExt, TLC

Props == {"C14", "C13"}

Empty == [p \in {} |-> 0]

Add(b, p) == IF p \in DOMAIN b THEN [b EXCEPT ![p] = @ + 1] ELSE b @@ (p :> 1)
Del(b, p) == IF b[p] > 1 THEN [b EXCEPT ![p] = @ - 1] ELSE [q \in DOMAIN b \ {p} |-> b[q]]

Init0(k) == [ bag  |-> [o \in 1..k |-> Empty],
              seen |-> [o \in 1..k |-> <<>>],    \* what the object reported last, if nothing was done to it since
              ok   |-> [o \in 1..k |-> TRUE],    \* its last observation was right
              viol |-> {} ]

Flag(m, p, cond) == IF cond THEN m ELSE [m EXCEPT !.viol = @ \cup {p}]

CellSet(cells) == {<<cells[i].s, cells[i].v>> : i \in 1..Len(cells)}

OnObs(c, m, e) ==
    LET P   == DOMAIN m.bag[e.o]
        d1  == Diagram(e.cells, P, c.w, c.h)
        d   == d1 /\ (e.cells2 = e.cells \/ Diagram(e.cells2, P, c.w, c.h))
        sh  == c.sh[e.o]
        now == <<CellSet(e.cells), CellSet(e.cells2)>>
        m1  == Flag(m, "C14", d)
        m2  == Flag(m1, "C13", m.seen[e.o] # <<>> => m.seen[e.o] = now)
        m3  == Flag(m2, "C13", sh # 0 /\ m.ok[sh] => d)
    IN [m3 EXCEPT !.seen[e.o] = now, !.ok[e.o] = d]

Step(c, m, e) ==
    CASE e.e = "ins" -> [m EXCEPT !.bag[e.o] = Add(@, e.p), !.seen[e.o] = <<>>]
      [] e.e = "rem" -> [m EXCEPT !.bag[e.o] = Del(@, e.p), !.seen[e.o] = <<>>]
      [] e.e = "set" -> [m EXCEPT !.bag[e.o] = m.bag[e.from],
                                  !.seen[e.o] = IF c.sh[e.o] # 0 THEN m.seen[e.from] ELSE <<>>]
      [] e.e = "obs" -> OnObs(c, m, e)
      [] OTHER       -> [m EXCEPT !.viol = Props]
=============================================================================
