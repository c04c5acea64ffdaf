------------------------------- MODULE MC_Sub -------------------------------
(***************************************************************************)
(* The counting laws behind the subproblem judges, decided over integer    *)
(* vectors, and the exactly tangent / boundary cases exported for replay.  *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS Norms,      \* squared lengths of the vectors
          Kind,       \* "cones" (subproblem 2), "elbow" (3), "plane" (4)
          Rate
VARIABLES p, q, k1, k2
vars == <<p, q, k1, k2>>
Box == (-5)..5
VecOf(nn) == { v \in Box \X Box \X Box : NormSq(v) = nn }
Axes0 == { <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,0,-1>> }
Axes2 == Axes0 \cup { <<1,1,0>>, <<0,1,-1>>, <<1,1,1>>, <<1,2,2>> }
Init == /\ \E nn \in Norms : p \in VecOf(nn) /\ q \in VecOf(nn)
        /\ k1 = Ez /\ k2 = Ex
\* choose other axes
Turn == k1 = Ez /\ k2 = Ex /\ \E a \in Axes0, b \in Axes2 :
          /\ <<a, b>> # <<Ez, Ex>> /\ k1' = a /\ k2' = b
          /\ UNCHANGED <<p, q>>
Next == Turn
Spec == Init /\ [][Next]_vars

\* ---- subproblem 2: z on both cones iff it lies on two planes and a sphere
c1 == Dot(k1, q)
c2 == Dot(k2, p)
G  == NormSq(k1)*NormSq(k2) - Dot(k1,k2)*Dot(k1,k2)
Disc == NormSq(p)*G - (c1*c1*NormSq(k2) - 2*c1*c2*Dot(k1,k2) + c2*c2*NormSq(k1))
Meet == { z \in VecOf(NormSq(p)) : Dot(k1, z) = c1 /\ Dot(k2, z) = c2 }
Cones == LET X == Cross(k1, k2) IN
   /\ \A z \in Meet : Dot(z, X)*Dot(z, X) = Disc            \* Gram determinant
   /\ G # 0 => Cardinality(Meet) <= 2
   /\ (G # 0 /\ Disc = 0) => Cardinality(Meet) <= 1
   /\ (G # 0 /\ Disc < 0) => Meet = {}
   /\ (G # 0 /\ Cardinality(Meet) = 1) => (Disc = 0 \/ \E z \in Meet : TRUE)
\* ---- subproblems 3 and 4 by quarter turns about a coordinate axis
Perp(v) == Sub(v, Scale(Dot(v, k1), k1))
PP == NormSq(Perp(p))   QP == NormSq(Perp(q))
Turns(f(_)) == { t \in 0..3 : f(Rot(k1, t)) }
Dist2(R) == NormSq(Add(q, MVec(R, p)))
Elbow == \A t \in 0..3 :
   LET d2 == Dist2(Rot(k1, t))
       h == Dot(k1, Add(p, q))
       c == d2 - h*h - PP - QP                 \* = 2 qp . R pp
       sol == { u \in 0..3 : Dist2(Rot(k1, u)) = d2 }
   IN /\ c*c <= 4*PP*QP
      /\ PP*QP # 0 => Cardinality(sol) <= 2
      /\ (PP*QP # 0 /\ c*c = 4*PP*QP) => Cardinality(sol) = 1
Plane == \A t \in 0..3 :
   LET d(u) == Dot(p, MVec(Rot(k1, u), q))
       a == Dot(p, Cross(k1, q))
       b == Dot(p, q) - Dot(k1, p)*Dot(k1, q)
       c == d(t) - (Dot(p, q) - b)
       sol == { u \in 0..3 : d(u) = d(t) }
   IN /\ c = a*LSin(t) + b*LCos(t)
      /\ c*c <= a*a + b*b
      /\ (a # 0 \/ b # 0) => Cardinality(sol) <= 2
      /\ ((a # 0 \/ b # 0) /\ c*c = a*a + b*b) => Cardinality(sol) = 1
Laws == CASE Kind = "cones" -> Cones [] Kind = "elbow" -> Elbow [] Kind = "plane" -> Plane

Code(v) == v[1] + 7*v[2] + 31*v[3]
Hash == (Code(p) * 17 + Code(q) * 5 + Code(k1) * 3 + Code(k2)) % Rate
\* degenerate: a vector on its own axis turns nowhere
Deg2 == Cross(p, k2) = Zero3 \/ Cross(q, k1) = Zero3
Export ==
  CASE Kind = "cones" ->
         ((~Deg2 /\ (Hash = 0 \/ (Disc = 0 /\ G # 0 /\ k2 \in Axes0 /\ Hash % 7 = 0))) =>
            Emit([p |-> p, q |-> q, k1 |-> k1, k2 |-> k2, touch |-> Disc = 0 /\ G # 0 /\ k2 \in Axes0, nn |-> NormSq(p)]))
    [] OTHER -> ((k2 = Ex /\ PP # 0 /\ QP # 0 /\ Hash = 0) => Emit([p |-> p, q |-> q, k |-> k1]))
=============================================================================
