------------------------------- MODULE MC_Sess -------------------------------
(***************************************************************************)
(* The aliasing model behind C17.  Robots are records of references into a *)
(* heap of cells; two of them share cells.  A query reads the cells its    *)
(* robot refers to; setting a frame replaces a reference of one robot;     *)
(* poking writes into the cell behind a reference, which every robot that  *)
(* refers to it sees.  Checked: cells change by pokes only, a robot's view *)
(* changes only by its own set-operations and by pokes of cells it refers  *)
(* to, and equal questions under equal views have equal answers whatever   *)
(* happened in between.  Every history up to Depth is enumerated; a hash   *)
(* sample is exported for replay.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Rate
Robots == {"A", "B", "C", "D"}
Queries == {"fwd", "jac", "ik", "iklast", "itik", "equiv", "apply", "unapply", "conv", "sub", "xf", "ops", "tess", "msg"}
Slots == {"tool", "flange", "base"}
VARIABLES ref, heap, hist, pokes
vars == <<ref, heap, hist, pokes>>
Cell0 == [ tool |-> 1, flange |-> 2, base |-> 3 ]
Init == /\ ref = [A |-> [Cell0 EXCEPT !.tool = 0], B |-> [Cell0 EXCEPT !.tool = 0], C |-> [Cell0 EXCEPT !.flange = 0], D |-> [s \in Slots |-> 0]]
        /\ heap = [c \in 0..7 |-> 100 + c]
        /\ hist = <<>> /\ pokes = [c \in 0..7 |-> 0]
View(r) == [s \in Slots |-> heap[ref[r][s]]]
Ask(o, r) == /\ Len(hist) < Depth
             /\ hist' = Append(hist, <<o, r, 0>>)
             /\ UNCHANGED <<ref, heap, pokes>>
Mount(s, r, c) == /\ Len(hist) < Depth /\ ref[r][s] # c
                  /\ ref' = [ref EXCEPT ![r][s] = c]
                  /\ hist' = Append(hist, <<s, r, c>>)
                  /\ UNCHANGED <<heap, pokes>>
Poke(s, r) == /\ Len(hist) < Depth /\ ref[r][s] # 0
              /\ heap' = [heap EXCEPT ![ref[r][s]] = @ + 10]
              /\ pokes' = [pokes EXCEPT ![ref[r][s]] = @ + 1]
              /\ hist' = Append(hist, <<"poke " \o s, r, 0>>)
              /\ UNCHANGED ref
Next == \/ \E s \in Slots, r \in Robots : Poke(s, r)
        \/ \E o \in Queries, r \in Robots : Ask(o, r)
        \/ \E s \in Slots, r \in Robots, c \in {0, 4, 5} : Mount(s, r, c)
Spec == Init /\ [][Next]_vars
CellsKept == \A c \in 0..7 : heap[c] = 100 + c + 10 * pokes[c]
\* a step that is no poke keeps every cell; a step changes the view of the robot it names, or of those sharing the poked cell
OthersKept == [][LET h == hist'[Len(hist')] IN
                 \A r \in Robots : (View(r))' # View(r) => \/ h[2] = r
                                                          \/ /\ heap' # heap
                                                             /\ \E s, t \in Slots : ref[r][s] = ref[h[2]][t] /\ ref[r][s] # 0]_vars
QueriesKeep == [][hist'[Len(hist')][1] \in Queries => UNCHANGED <<ref, heap>>]_vars
Code(x) == LET c == [fwd |-> 1, jac |-> 2, ik |-> 3, iklast |-> 4, itik |-> 5, equiv |-> 6, apply |-> 7, unapply |-> 8, conv |-> 9, sub |-> 10, xf |-> 11, ops |-> 12,
                     tess |-> 16, msg |-> 17, tool |-> 13, flange |-> 14, base |-> 15, A |-> 1, B |-> 2, C |-> 3, D |-> 4]
           IN IF x \in DOMAIN c THEN c[x] ELSE CASE x = "poke tool" -> 18 [] x = "poke flange" -> 19 [] OTHER -> 20
Hash == LET h[i \in 0..Len(hist)] == IF i = 0 THEN 3 ELSE (h[i-1]*31 + Code(hist[i][1])*7 + Code(hist[i][2])*5 + hist[i][3]) % 10007 IN h[Len(hist)] % Rate
Export == (Len(hist) = Depth /\ Hash = 0) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
