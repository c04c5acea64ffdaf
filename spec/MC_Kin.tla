------------------------------- MODULE MC_Kin -------------------------------
(***************************************************************************)
(* Exhaustive model of serial chains on the lattice.  The state is a robot *)
(* together with a joint vector; actions append a joint.  In every state   *)
(* the laws behind C06-C09 hold exactly: the Jacobian columns obtained by  *)
(* the product rule are those of the geometric construction and those      *)
(* observed by moving the joint, and auxiliary frames apply and unapply.   *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS N,          \* largest number of joints
          Rate        \* one state in Rate is exported
VARIABLES rob, q
vars == <<rob, q>>

TB == << [R |-> Rot(Ez, 1), p |-> <<1,0,2>>] >>
TF == << [R |-> Rot(Ey, 1), p |-> <<0,1,0>>] >>
TT == << [R |-> Rot(Ex, 3), p |-> <<0,-1,1>>] >>
Sub1(o) == {<<>>, o}
Empty(b, f, t) == [H |-> <<>>, P |-> << <<0,0,1>> >>, jt |-> <<>>, base |-> b, flange |-> f, tool |-> t]
Offsets == { <<0,0,0>>, <<1,0,-1>> }
MobileBase(b, f, t) == [H |-> <<Ex, Ey, Ez>>, P |-> << <<0,0,0>>, <<0,0,0>>, <<0,0,0>>, <<1,0,1>> >>, jt |-> <<3,3,2>>, base |-> b, flange |-> f, tool |-> t]
BaseAt(r, k) == k + 2 <= Len(r.jt) /\ r.jt[k] = 3 /\ r.jt[k+1] = 3 /\ r.jt[k+2] = 2

Init == \/ /\ \E b \in Sub1(TB), f \in Sub1(TF), t \in Sub1(TT) : rob = Empty(b, f, t)
           /\ q = <<>>
        \/ /\ \E b \in Sub1(TB), f \in Sub1(TF), t \in Sub1(TT) : rob = MobileBase(b, f, t)
           /\ q \in {<<1, 2, a>> : a \in 0..3}
AddJoint(h, t, o, x) ==
  /\ rob' = [rob EXCEPT !.H = Append(@, h), !.jt = Append(@, t), !.P = Append(@, o)]
  /\ q' = Append(q, x)
\* a mobile base carried by the joints before it
AddBase(x, y, a) ==
  /\ rob' = [rob EXCEPT !.H = @ \o <<Ey, Ez, Ex>>, !.jt = @ \o <<3, 3, 2>>, !.P = @ \o << <<0,0,0>>, <<0,0,0>>, <<1,-1,0>> >>]
  /\ q' = q \o <<x, y, a>>
Next == \/ /\ Len(rob.jt) < (IF BaseAt(rob, 1) THEN 4 ELSE N)
           /\ \/ \E h \in LAxes, t \in {0, 1}, o \in Offsets, x \in {0, 1, 3} : AddJoint(h, t, o, x)
              \/ \E h \in {Ex, Ez}, t \in {2, 3} : AddJoint(h, t, <<1,0,-1>>, 1)
        \/ /\ Len(rob.jt) = 1
           /\ \E a \in 0..3 : AddBase(1, -1, a)
Spec == Init /\ [][Next]_vars

n == Len(rob.jt)
T == Fwd(rob, q)
Rigid == LIsRotation(T.R)
AuxCancel == LET C == ChainT(rob, q, n) IN /\ Unapply(rob, Apply(rob, C)) = C
                                           /\ Apply(rob, Unapply(rob, C)) = C
                                           /\ Apply(rob, C) = T
\* product rule = geometric construction
Derivative == \A k \in 1..n : LET a == VelCol(rob, q, k) g == GeoCol(rob, q, k) IN a.w2 = Scale(2, g.w) /\ a.v = g.v
\* moving one joint by a unit moves the tool along / around that very axis
Bump(k) == Fwd(rob, [q EXCEPT ![k] = @ + 1])
Moves == \A k \in 1..n :
   LET A == TMul(Opt(rob.base), ChainT(rob, q, k-1))
       h == MVec(A.R, rob.H[k])
       B == Bump(k)
   IN IF Sliding(rob.jt[k]) THEN B.R = T.R /\ B.p = Add(T.p, GeoCol(rob, q, k).v)
      ELSE B.R = MMul(Rot(h, 1), T.R) /\ B.p = Add(A.p, MVec(Rot(h, 1), Sub(T.p, A.p)))
\* full turns do not matter
Periodic == \A k \in 1..n : Rotary(rob.jt[k]) => Fwd(rob, [q EXCEPT ![k] = @ + 4]) = T
\* a mobile base: the forward column is the heading-weighted mix of its two translations
Forward == \A k \in 1..n : BaseAt(rob, k) =>
   LET a == VelCol(rob, q, k).v  b == VelCol(rob, q, k+1).v
       A == TMul(Opt(rob.base), ChainT(rob, q, k-1))
   IN MVec(A.R, MVec(Rot(rob.H[k+2], q[k+2]), rob.H[k])) = Add(Scale(LCos(q[k+2]), a), Scale(LSin(q[k+2]), b))
Laws == Rigid /\ AuxCancel /\ Derivative /\ Moves /\ Periodic /\ Forward

Hash == LET RECURSIVE S(_)
            S(i) == IF i = 0 THEN 7 ELSE 5 * S(i-1) + 3 * q[i] + 11 * rob.jt[i] + rob.H[i][1] + 2*rob.H[i][2] + 3*rob.H[i][3] + rob.P[i+1][1]
        IN S(n) + Len(rob.base) + 2*Len(rob.flange) + 4*Len(rob.tool)
Export == (n <= 1 \/ Hash % Rate = 0) => Emit([rob |-> rob, q |-> q])
=============================================================================
