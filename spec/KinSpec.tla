-------------------------------- MODULE KinSpec --------------------------------
(***************************************************************************)
(* Forward kinematics, limits, Jacobian, auxiliary frames (C06 - C09).     *)
(***************************************************************************)
EXTENDS XfSpec

LimGate == INSTANCE LimSpec
Gate(e) == LimGate!Answered(e.lo, e.up, e.q, e.ign)

J_fwd(e) ==
  IF ~Gate(e) THEN Refused(e.r)
  ELSE WhenOk(e.r, LAMBDA v : LET T == Fwd(e.rob, e.q) IN
         Clause(NearM(v.R, T.R, Tol), "tool orientation is not the product of the joint motions")
         \cup Clause(NearV(v.p, T.p, 2*Tol), "tool position is not the product of the joint motions"))

(* Joint types 3, 3, 2 in a row are a mobile base (two translations and the heading).  It moves *)
(* only along its own heading, so that the Jacobian has one column for both translations.         *)
BaseAt(rob, k) == k + 2 <= Len(rob.jt) /\ rob.jt[k] = 3 /\ rob.jt[k+1] = 3 /\ rob.jt[k+2] = 2
HasBase(rob) == \E k \in 1..Len(rob.jt) : BaseAt(rob, k)
ForwardCol(rob, q, k) ==
  LET A == TMul(Opt(rob.base), ChainT(rob, q, k-1))
  IN [w2 |-> Zero3, v |-> MVec(A.R, MVec(Rot(rob.H[k+2], q[k+2]), rob.H[k]))]
\* expected columns: twice the angular and the linear velocity
RECURSIVE JColsFrom(_, _, _)
JColsFrom(rob, q, k) ==
  IF k > Len(rob.jt) THEN <<>>
  ELSE IF BaseAt(rob, k) THEN <<ForwardCol(rob, q, k), VelCol(rob, q, k+2)>> \o JColsFrom(rob, q, k+3)
  ELSE <<VelCol(rob, q, k)>> \o JColsFrom(rob, q, k+1)
JCols(rob, q) == JColsFrom(rob, q, 1)
NearCol(v, m, k, c) ==
  LET at(i) == v[m*(i-1)+k] IN
  /\ FNear(2*at(1), c.w2[1], Tol) /\ FNear(2*at(2), c.w2[2], Tol) /\ FNear(2*at(3), c.w2[3], Tol)
  /\ FNear(at(4), c.v[1], 2*Tol) /\ FNear(at(5), c.v[2], 2*Tol) /\ FNear(at(6), c.v[3], 2*Tol)
J_jac(e) ==
  IF ~Gate(e) THEN Refused(e.r)
  ELSE WhenOk(e.r, LAMBDA v :
         LET cs == JCols(e.rob, e.q) m == Len(cs) IN
         IF v.cols # m THEN {"Jacobian has the wrong number of columns"}
         ELSE IF ~FBounded(v.J, 10*FOne) THEN {"Jacobian is out of proportion"}
         ELSE Clause(\A k \in 1..m : NearCol(v.J, m, k, cs[k]), "a column is not the velocity of the tool per unit joint rate"))

J_aux(e) == WhenOk(e.r, LAMBDA v :
   LET want == CASE e.mode = "apply" -> Apply(e.rob, e.T)
                 [] e.mode = "unapply" -> Unapply(e.rob, e.T)
                 [] OTHER -> e.T
   IN Clause(NearM(v.R, want.R, Tol) /\ NearV(v.p, want.p, 2*Tol),
             CASE e.mode = "apply" -> "not base * pose * flange * tool"
               [] e.mode = "unapply" -> "not the inverse of applying the frames"
               [] OTHER -> "applying and unapplying do not cancel"))
=============================================================================
