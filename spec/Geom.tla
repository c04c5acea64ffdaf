-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Vectors, rotations, quaternions and rigid transforms over an abstract   *)
(* arithmetic.  Instantiated with exact lattice arithmetic (integers and   *)
(* quarter turns) for exhaustive model checking and with fixed point       *)
(* (module Fix) for judging traces of the implementation.                  *)
(*   vector     <<x,y,z>>                                                  *)
(*   matrix     <<m11,m12,m13,m21,...,m33>> (row major)                    *)
(*   quaternion <<w,x,y,z>>                                                *)
(*   transform  [R |-> matrix, p |-> vector]                               *)
(* Multiplying k factors of unit One keeps the unit One.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS One, Mul(_, _), Sin(_), Cos(_)

Add(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Neg(a)    == <<-a[1], -a[2], -a[3]>>
Scale(s, a) == <<Mul(s,a[1]), Mul(s,a[2]), Mul(s,a[3])>>
Dot(a, b) == Mul(a[1],b[1]) + Mul(a[2],b[2]) + Mul(a[3],b[3])
Cross(a, b) == << Mul(a[2],b[3]) - Mul(a[3],b[2]),
                  Mul(a[3],b[1]) - Mul(a[1],b[3]),
                  Mul(a[1],b[2]) - Mul(a[2],b[1]) >>
NormSq(a) == Dot(a, a)
Zero3 == <<0,0,0>>
Ex == <<One,0,0>>   Ey == <<0,One,0>>   Ez == <<0,0,One>>

I3 == <<One,0,0, 0,One,0, 0,0,One>>
Z9 == <<0,0,0, 0,0,0, 0,0,0>>
MTrans(A) == <<A[1],A[4],A[7], A[2],A[5],A[8], A[3],A[6],A[9]>>
MAdd(A,B) == <<A[1]+B[1],A[2]+B[2],A[3]+B[3],A[4]+B[4],A[5]+B[5],A[6]+B[6],A[7]+B[7],A[8]+B[8],A[9]+B[9]>>
MSub(A,B) == <<A[1]-B[1],A[2]-B[2],A[3]-B[3],A[4]-B[4],A[5]-B[5],A[6]-B[6],A[7]-B[7],A[8]-B[8],A[9]-B[9]>>
MVec(A, v) == << Mul(A[1],v[1]) + Mul(A[2],v[2]) + Mul(A[3],v[3]),
                 Mul(A[4],v[1]) + Mul(A[5],v[2]) + Mul(A[6],v[3]),
                 Mul(A[7],v[1]) + Mul(A[8],v[2]) + Mul(A[9],v[3]) >>
MMul(A, B) ==
  << Mul(A[1],B[1])+Mul(A[2],B[4])+Mul(A[3],B[7]), Mul(A[1],B[2])+Mul(A[2],B[5])+Mul(A[3],B[8]), Mul(A[1],B[3])+Mul(A[2],B[6])+Mul(A[3],B[9]),
     Mul(A[4],B[1])+Mul(A[5],B[4])+Mul(A[6],B[7]), Mul(A[4],B[2])+Mul(A[5],B[5])+Mul(A[6],B[8]), Mul(A[4],B[3])+Mul(A[5],B[6])+Mul(A[6],B[9]),
     Mul(A[7],B[1])+Mul(A[8],B[4])+Mul(A[9],B[7]), Mul(A[7],B[2])+Mul(A[8],B[5])+Mul(A[9],B[8]), Mul(A[7],B[3])+Mul(A[8],B[6])+Mul(A[9],B[9]) >>
Det(A) == Dot(<<A[1],A[2],A[3]>>, Cross(<<A[4],A[5],A[6]>>, <<A[7],A[8],A[9]>>))
Trace3(A) == A[1] + A[5] + A[9]

Hat(k) == << 0, -k[3], k[2],  k[3], 0, -k[1],  -k[2], k[1], 0 >>
\* twice the vector of the antisymmetric part
Vee2(A) == << A[8]-A[6], A[3]-A[7], A[4]-A[2] >>

\* Rotation about the unit axis k by the angle whose cosine and sine are c, s:
\* c*I + s*hat(k) + (1-c)*k*k'
RotCS(k, c, s) ==
  LET v == One - c
      xx == Mul(v, Mul(k[1],k[1]))  yy == Mul(v, Mul(k[2],k[2]))  zz == Mul(v, Mul(k[3],k[3]))
      xy == Mul(v, Mul(k[1],k[2]))  xz == Mul(v, Mul(k[1],k[3]))  yz == Mul(v, Mul(k[2],k[3]))
      sx == Mul(s, k[1])  sy == Mul(s, k[2])  sz == Mul(s, k[3])
  IN << c+xx, xy-sz, xz+sy,  xy+sz, c+yy, yz-sx,  xz-sy, yz+sx, c+zz >>
Rot(k, th) == RotCS(k, Cos(th), Sin(th))
\* its derivative with respect to the angle
DRot(k, th) == MMul(Hat(k), Rot(k, th))

Rpy2R(rpy) == MMul(MMul(Rot(Ez, rpy[3]), Rot(Ey, rpy[2])), Rot(Ex, rpy[1]))

(* quaternions *)
QMul(a, b) == << Mul(a[1],b[1]) - Mul(a[2],b[2]) - Mul(a[3],b[3]) - Mul(a[4],b[4]),
                 Mul(a[1],b[2]) + Mul(a[2],b[1]) + Mul(a[3],b[4]) - Mul(a[4],b[3]),
                 Mul(a[1],b[3]) - Mul(a[2],b[4]) + Mul(a[3],b[1]) + Mul(a[4],b[2]),
                 Mul(a[1],b[4]) + Mul(a[2],b[3]) - Mul(a[3],b[2]) + Mul(a[4],b[1]) >>
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>
QDot(a, b) == Mul(a[1],b[1]) + Mul(a[2],b[2]) + Mul(a[3],b[3]) + Mul(a[4],b[4])
QNormSq(q) == QDot(q, q)
QVec(q) == <<q[2], q[3], q[4]>>
\* homogeneous form: |q|^2 times a rotation; for unit q the rotation itself
Q2R(q) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4]
      ww == Mul(w,w) xx == Mul(x,x) yy == Mul(y,y) zz == Mul(z,z)
      xy == Mul(x,y) xz == Mul(x,z) yz == Mul(y,z)
      wx == Mul(w,x) wy == Mul(w,y) wz == Mul(w,z)
  IN << ww+xx-yy-zz, 2*(xy-wz), 2*(xz+wy),
        2*(xy+wz), ww-xx+yy-zz, 2*(yz-wx),
        2*(xz-wy), 2*(yz+wx), ww-xx-yy+zz >>

(* rigid transforms *)
TId == [R |-> I3, p |-> Zero3]
TMul(A, B) == [R |-> MMul(A.R, B.R), p |-> Add(A.p, MVec(A.R, B.p))]
TInv(A) == LET Rt == MTrans(A.R) IN [R |-> Rt, p |-> Neg(MVec(Rt, A.p))]
TApply(A, v) == Add(A.p, MVec(A.R, v))
=============================================================================
