-------------------------------- MODULE Kin --------------------------------
(***************************************************************************)
(* Serial-chain kinematics, over the arithmetic of Geom.                   *)
(* Robot record:                                                           *)
(*   H     sequence of n joint axes (unit vectors)                         *)
(*   P     sequence of n+1 link offsets                                    *)
(*   jt    sequence of n joint types: 0 rotary, 1 prismatic,               *)
(*         2 and 3 mobile-base heading (rotary) / translation              *)
(*   base, flange, tool   <<>> when absent, else <<transform>>             *)
(***************************************************************************)
EXTENDS Geom

Rotary(t) == t \in {0, 2}
Sliding(t) == t \in {1, 3}

Opt(o) == IF o = <<>> THEN TId ELSE o[1]

\* motion of one joint
JointT(h, t, q) == IF Rotary(t) THEN [R |-> Rot(h, q), p |-> Zero3]
                                ELSE [R |-> I3, p |-> Scale(q, h)]
\* derivative of that motion with respect to q (R part need not be a rotation)
DJointT(h, t, q) == IF Rotary(t) THEN [R |-> DRot(h, q), p |-> Zero3]
                                 ELSE [R |-> Z9, p |-> h]

Shift(v) == [R |-> I3, p |-> v]

\* product of exponentials up to and including joint i, followed by P[i+1]
RECURSIVE ChainT(_, _, _)
ChainT(r, q, i) ==
  IF i = 0 THEN Shift(r.P[1])
  ELSE LET A == ChainT(r, q, i-1) IN
       TMul(TMul(A, JointT(r.H[i], r.jt[i], q[i])), Shift(r.P[i+1]))

Apply(r, T) == TMul(Opt(r.base), TMul(TMul(T, Opt(r.flange)), Opt(r.tool)))
Unapply(r, T) == TMul(TInv(Opt(r.base)), TMul(TMul(T, TInv(Opt(r.tool))), TInv(Opt(r.flange))))

Fwd(r, q) == Apply(r, ChainT(r, q, Len(r.jt)))

(* The derivative of the tool pose with respect to joint k, by the product  *)
(* rule on homogeneous matrices: [R |-> dR/dq, p |-> dp/dq].                *)
DMul(A, dA, B) == [R |-> MMul(dA.R, B.R), p |-> Add(dA.p, MVec(dA.R, B.p))]
RECURSIVE TailT(_, _, _)
TailT(r, q, i) == \* motion from just after joint i-1's offset to the end of the chain
  IF i > Len(r.jt) THEN TId
  ELSE TMul(TMul(JointT(r.H[i], r.jt[i], q[i]), Shift(r.P[i+1])), TailT(r, q, i+1))
DFwd(r, q, k) ==
  LET A  == TMul(Opt(r.base), ChainT(r, q, k-1))
      B  == TMul(TMul(TMul(Shift(r.P[k+1]), TailT(r, q, k+1)), Opt(r.flange)), Opt(r.tool))
      D  == DJointT(r.H[k], r.jt[k], q[k])
      dAJ == [R |-> MMul(A.R, D.R), p |-> MVec(A.R, D.p)]
  IN [R |-> MMul(dAJ.R, B.R), p |-> Add(dAJ.p, MVec(dAJ.R, B.p))]
\* spatial velocity (twice the angular part, linear part) of the tool per unit rate of joint k
VelCol(r, q, k) ==
  LET D == DFwd(r, q, k)  T == Fwd(r, q)
  IN [w2 |-> Vee2(MMul(D.R, MTrans(T.R))), v |-> D.p]

(* The geometric Jacobian: axis in world, and axis x lever arm / axis.      *)
GeoCol(r, q, k) ==
  LET A == TMul(Opt(r.base), ChainT(r, q, k-1))
      h == MVec(A.R, r.H[k])
      pT == Fwd(r, q).p
  IN IF Rotary(r.jt[k]) THEN [w |-> h, v |-> Cross(h, Sub(pT, A.p))]
                        ELSE [w |-> Zero3, v |-> h]
=============================================================================
