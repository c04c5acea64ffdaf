------------------------------- MODULE IterSpec -------------------------------
(***************************************************************************)
(* The protocol of an iterative solver (C16), over any notion of error:    *)
(* within a budget of steps it either finds itself within the tolerance    *)
(* and says so, or moves; when the budget is spent it says it has not      *)
(* converged.                                                              *)
(***************************************************************************)
EXTENDS Integers
\* what a result may claim, given the error where it ends, the error at the start and the budget
MayConverge(budget, inTol) == budget >= 1 /\ inTol
MustConverge(budget, startsInTol) == budget >= 1 /\ startsInTol
MayMove(budget, startsInTol) == budget >= 1 /\ ~startsInTol
=============================================================================
