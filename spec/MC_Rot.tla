------------------------------- MODULE MC_Rot -------------------------------
(***************************************************************************)
(* Exhaustive model of orientations as integer quaternions.  The state is  *)
(* an orientation a; actions compose it with a generator b.  The laws that *)
(* C01-C03 rest on are checked in every state, exactly, and every state is *)
(* exported as a case for the implementation.                              *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS M,       \* component bound of the orientations
          Mode     \* which cases to print: "single", "pair", "none"
VARIABLES a, b
vars == <<a, b>>
Comp(m) == (-m)..m
QSet(m) == { q \in Comp(m) \X Comp(m) \X Comp(m) \X Comp(m) : q # <<0,0,0,0>> }
Init == a \in QSet(M) /\ b = <<1,0,0,0>>
\* compose with another orientation, staying inside the bound
Choose(g) == b = <<1,0,0,0>> /\ b' = g /\ a' = a
Next == \E g \in QSet(1) \ {<<1,0,0,0>>} : Choose(g)
Spec == Init /\ [][Next]_vars

N(q) == QNormSq(q)
MScale(s, A) == [i \in 1..9 |-> s * A[i]]
\* |q|^2-homogeneous orthogonality and orientation
Proper == /\ MMul(Q2R(a), MTrans(Q2R(a))) = MScale(N(a)*N(a), I3)
          /\ Det(Q2R(a)) = N(a)*N(a)*N(a)
\* the quaternion and its negative are the same rotation, the complement the inverse one
DoubleCover == Q2R([i \in 1..4 |-> -a[i]]) = Q2R(a)
Inverse == Q2R(QConj(a)) = MTrans(Q2R(a))
\* composing quaternions composes rotations (homomorphism)
Compose == Q2R(QMul(a, b)) = MMul(Q2R(a), Q2R(b))
NormMult == N(QMul(a, b)) = N(a) * N(b)
\* the quaternion Jacobian: rotating by the rate 1/2 (0,w) q changes the matrix by hat(w) R:
\* polarised form of d/dt (q v q*) = w x (q v q*)
Bil(p, q) == MSub(Q2R([i \in 1..4 |-> p[i]+q[i]]), MAdd(Q2R(p), Q2R(q)))
Rate == LET w == QVec(b) IN Bil(a, QMul(<<0, w[1], w[2], w[3]>>, a)) = MScale(2, MMul(Hat(w), Q2R(a)))
\* the axis (vector part) is fixed by the rotation
AxisFixed == MVec(Q2R(a), QVec(a)) = Scale(N(a), QVec(a))
\* trace, which the case analysis of matrix-to-quaternion branches on
TraceLaw == Trace3(Q2R(a)) = 4*a[1]*a[1] - N(a)
\* vector algebra
HatLaw == LET u == QVec(a) w == QVec(b) IN
            /\ MVec(Hat(u), w) = Cross(u, w)
            /\ Vee2(Hat(u)) = Scale(2, u)
            /\ MTrans(Hat(u)) = MScale(-1, Hat(u))
            /\ Dot(u, Cross(u, w)) = 0
\* the midpoint of an arc (slerp at t = 1/2) halves the relative rotation:
\* m = a|b| + b|a| for equal norms; m a* and b m* are parallel
Midpoint == N(a) = N(b) =>
   LET m == [i \in 1..4 |-> a[i] + b[i]]
       x == QMul(m, QConj(a))  y == QMul(b, QConj(m))
   IN \A i \in 1..4 : \A j \in 1..4 : x[i]*y[j] = x[j]*y[i]

Laws == Proper /\ DoubleCover /\ Inverse /\ Compose /\ NormMult /\ Rate /\ AxisFixed /\ TraceLaw /\ HatLaw /\ Midpoint

Export == CASE Mode = "single" -> (b = <<1,0,0,0>> => Emit([q |-> a]))
            [] Mode = "pair" -> (((a[1] + 3*a[2] + 5*a[3] + 7*a[4] + b[1] + 2*b[2] + 4*b[3] + 8*b[4]) % 29 = 0) => Emit([q |-> a, b |-> b]))
            [] OTHER -> TRUE
=============================================================================
