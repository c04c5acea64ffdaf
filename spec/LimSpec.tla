-------------------------------- MODULE LimSpec --------------------------------
(***************************************************************************)
(* Position limits as a gate in front of forward kinematics and Jacobian   *)
(* (C07).  lo and up are <<>> when the robot has no such list, else        *)
(* << list >>; the gate exists only when both do, and limits are inclusive.*)
(***************************************************************************)
EXTENDS Integers, Sequences
Within(lo, up, q) == \A i \in 1..Len(q) : lo[i] <= q[i] /\ q[i] <= up[i]
Answered(lo, up, q, ign) == ign \/ lo = <<>> \/ up = <<>> \/ Within(lo[1], up[1], q)
=============================================================================
