------------------------------- MODULE MC_Iter -------------------------------
(***************************************************************************)
(* The solver protocol, exhaustively: for every budget, starting error and *)
(* course of the error, what is reported obeys IterSpec.  The error is     *)
(* abstract (0 is within the tolerance) and may go either way in a step.   *)
(* The starting situations, together with joint types and turns of the     *)
(* starting joints, are exported for the driver.                           *)
(***************************************************************************)
EXTENDS IterSpec, Sequences, TLC, Json
CONSTANTS N, B, E
VARIABLES jt, turn, budget, err0, err, steps, moved, conv, done
vars == <<jt, turn, budget, err0, err, steps, moved, conv, done>>
Init == /\ jt = <<>> /\ turn = <<>> /\ budget \in 0..B /\ err0 \in 0..E /\ err = err0
        /\ steps = 0 /\ moved = FALSE /\ conv = FALSE /\ done = FALSE
Grow == /\ steps = 0 /\ ~done /\ Len(jt) < N
        /\ \E t \in {0, 1}, k \in {-2, 0, 1} : (t = 1 => k = 0) /\ jt' = Append(jt, t) /\ turn' = Append(turn, k)
        /\ UNCHANGED <<budget, err0, err, steps, moved, conv, done>>
Run == /\ Len(jt) > 0 /\ ~done
       /\ UNCHANGED <<jt, turn, budget, err0>>
       /\ IF steps = budget THEN done' = TRUE /\ UNCHANGED <<err, steps, moved, conv>>
          ELSE IF err = 0 THEN done' = TRUE /\ conv' = TRUE /\ steps' = steps + 1 /\ UNCHANGED <<err, moved>>
          ELSE \E d \in {-1, 0, 1} : /\ err + d \in 0..E /\ err' = err + d
                                     /\ steps' = steps + 1 /\ moved' = TRUE /\ UNCHANGED <<conv, done>>
Next == Grow \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)
Laws == /\ steps <= budget
        /\ conv => MayConverge(budget, err = 0)
        /\ done /\ MustConverge(budget, err0 = 0) => conv
        /\ moved => MayMove(budget, err0 = 0)
        /\ (conv /\ ~moved) <=> (done /\ MustConverge(budget, err0 = 0))
Finishes == (Len(jt) > 0) ~> done
Export == (Len(jt) > 0 /\ steps = 0 /\ ~done) => PrintT("CASE " \o ToJson([jt |-> jt, turn |-> turn, budget |-> budget, err |-> err0]))
=============================================================================
