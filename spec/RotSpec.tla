------------------------------ MODULE RotSpec ------------------------------
(***************************************************************************)
(* Rotation representations, quaternion algebra and spherical              *)
(* interpolation (C01, C02, C03).  Each operator judges one recorded call  *)
(* and returns the set of clauses it breaks.                               *)
(***************************************************************************)
EXTENDS FKin

(* ------------------------------------------------------------- C01 ------ *)
J_rot(e) == WhenOk(e.r, LAMBDA v : Clause(NearM(v, Rot(e.k, e.th), Tol), "matrix is not the rotation about the axis by the angle"))

J_R2rot(e) == WhenOk(e.r, LAMBDA v :
  IF ~FBounded(v.k, RotBound) \/ ~UnitV(v.k, 2*Tol) THEN {"axis is not a unit vector"}
  ELSE Clause(NearM(Rot(v.k, v.th), e.R, Tol), "axis and angle do not give the rotation back"))

J_R2q(e) == WhenOk(e.r, LAMBDA v :
  IF ~UnitQ(v, 2*Tol) THEN {"quaternion is not of unit length"}
  ELSE Clause(NearM(Q2R(v), e.R, Tol), "quaternion does not give the rotation back"))

J_q2R(e) == WhenOk(e.r, LAMBDA v :
    Clause(NearM(v, Q2R(e.q), Tol), "matrix is not the rotation of the quaternion")
      \cup Clause(IsRotation(v, 3*Tol), "matrix is not a proper rotation"))

J_q2rot(e) == WhenOk(e.r, LAMBDA v :
  IF ~UnitV(v.k, 2*Tol) THEN {"axis is not a unit vector"}
  ELSE Clause(NearM(Rot(v.k, v.th), Q2R(e.q), Tol), "axis and angle do not give the rotation of the quaternion"))

J_rot2q(e) == WhenOk(e.r, LAMBDA v :
  IF ~UnitQ(v, 2*Tol) THEN {"quaternion is not of unit length"}
  ELSE Clause(NearM(Q2R(v), Rot(e.k, e.th), Tol), "quaternion is not the rotation about the axis by the angle"))

J_rpy2R(e) == WhenOk(e.r, LAMBDA v : Clause(NearM(v, Rpy2R(e.rpy), Tol), "matrix is not yaw * pitch * roll"))

\* e.c16: length of the first column's xy part in units of 1e-16, capped
J_R2rpy(e) ==
  IF e.c16 <= 5 THEN Refused(e.r)
  ELSE IF e.c16 < 10000 THEN {}
  ELSE WhenOk(e.r, LAMBDA v :
         Clause(NearM(Rpy2R(v), e.R, Tol + 4*(1000000000 \div e.c16)), "roll, pitch, yaw do not give the rotation back"))

\* a chain of conversions that must come back to the rotation it started from
J_rchain(e) == WhenOk(e.r, LAMBDA v : Clause(NearM(v, e.R, 2*Tol), "conversion chain changed the rotation"))

J_properR(e) == WhenOk(e.r, LAMBDA v : Clause(IsRotation(v, Tol), "not a proper rotation"))

(* ------------------------------------------------------------- C02 ------ *)
J_hat(e) == WhenOk(e.r, LAMBDA v : Clause(NearM(v, Hat(e.v), 2), "not the cross-product matrix"))
\* hat(u) applied to w, recorded as the implementation's own product
J_hatmul(e) == WhenOk(e.r, LAMBDA v : Clause(NearV(v, Cross(e.u, e.w), 100), "hat(u) w is not u x w"))
J_invhat(e) == WhenOk(e.r, LAMBDA v : Clause(NearV(v, e.v, 2), "invhat does not invert hat"))
QE(i) == [j \in 1..4 |-> IF i = j THEN FOne ELSE 0]
J_quatproduct(e) == WhenOk(e.r, LAMBDA v :
  Clause(\A i \in 1..4 : LET c == QMul(e.q, QE(i)) IN \A j \in 1..4 : FNear(v[4*(j-1)+i], c[j], 10),
         "matrix is not left multiplication by the quaternion"))
J_quatcompose(e) == WhenOk(e.r, LAMBDA v :
  Clause(NearQ(v.q, QMul(e.a, e.b), Tol), "not the Hamilton product")
  \cup Clause(NearM(v.R, MMul(Q2R(e.a), Q2R(e.b)), Tol), "product of quaternions is not the composed rotation"))
J_quatcomplement(e) == WhenOk(e.r, LAMBDA v :
  Clause(NearQ(v, QConj(e.q), 2), "not the quaternion complement"))
J_quatjacobian(e) == WhenOk(e.r, LAMBDA v :
  Clause(\A i \in 1..3 :
           LET w == [j \in 1..4 |-> IF j = i+1 THEN FOne ELSE 0]
               c == QMul(w, e.q)   \* qdot = 1/2 (0,w) q for a world-frame velocity w
           IN \A j \in 1..4 : FNear(2*v[3*(j-1)+i], c[j], 10),
         "does not map a world-frame angular velocity to the quaternion rate"))
I6at(i, j) == IF i = j THEN FOne ELSE 0
ScrewAt(r, i, j) == IF i <= 3 /\ j > 3 THEN Hat(r)[3*(i-1)+(j-3)] ELSE I6at(i, j)
J_screw(e) == WhenOk(e.r, LAMBDA v :
  Clause(\A i \in 1..6 : \A j \in 1..6 : FNear(v[6*(i-1)+j], ScrewAt(e.d, i, j), 10), "not the screw matrix of the displacement"))
\* a force f at point 2 with torque t seen from point 1: torque t + r x f
J_screwwrench(e) == WhenOk(e.r, LAMBDA v :
  LET t == <<e.w[1], e.w[2], e.w[3]>>  f == <<e.w[4], e.w[5], e.w[6]>>
      m == Add(t, Cross(e.d, f))
  IN Clause(NearV(<<v[1],v[2],v[3]>>, m, 100) /\ NearV(<<v[4],v[5],v[6]>>, f, 100), "wrench is not moved between the points"))
J_screwsum(e) == WhenOk(e.r, LAMBDA v :
  Clause(\A i \in 1..6 : \A j \in 1..6 : FNear(v[6*(i-1)+j], ScrewAt(Add(e.a, e.b), i, j), 20), "screw matrices of successive displacements do not multiply to that of the sum"))

(* ------------------------------------------------------------- C03 ------ *)
(* The driver proposes a witness for the arc: unit a parallel to q0, unit u *)
(* orthogonal to a and an angle phi with cos(phi) a + sin(phi) u = +-q1/|q1|.*)
(* The specification verifies the witness before using it.                  *)
Parallel(a, q, t) == \A i \in 1..4 : \A j \in 1..4 :
                        i < j => FNear(FMul(a[i], q[j]), FMul(a[j], q[i]), t)
Comb(c, a, s, u) == [i \in 1..4 |-> FMul(c, a[i]) + FMul(s, u[i])]
ArcAt(a, u, x) == Comb(FCos(x), a, FSin(x), u)
J_slerp(e) ==
  IF e.t < 0 \/ e.t > FOne THEN Refused(e.r)
  ELSE LET w == e.w IN
    IF ~(/\ UnitQ(w.a, 50) /\ UnitQ(w.u, 50) /\ FNear(QDot(w.a, w.u), 0, 50)
         /\ Parallel(w.a, e.q0, 50) /\ Parallel(ArcAt(w.a, w.u, w.phi), e.q1, 50)
         /\ w.phi >= 0 /\ w.phi <= FHalfPi + 3)
    THEN {"HARNESS: slerp witness rejected"}
    ELSE WhenOk(e.r, LAMBDA v :
      IF ~UnitQ(v, 2*Tol) THEN {"result is not a unit quaternion"}
      ELSE Clause(\/ SameRotQ(v, ArcAt(w.a, w.u, FMul(e.t, w.phi)), Tol)
                  \/ /\ w.phi > FHalfPi - 200
                     /\ SameRotQ(v, ArcAt(w.a, NegQ(w.u), FMul(e.t, FPi - w.phi)), Tol),
                  "result is not at fraction t of the shorter arc"))
=============================================================================
