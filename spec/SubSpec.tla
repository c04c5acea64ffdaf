-------------------------------- MODULE SubSpec --------------------------------
(***************************************************************************)
(* Canonical geometric subproblems (C10, C11).  Solvability and the number *)
(* of solutions follow from discriminants evaluated without division; each *)
(* returned angle is put back into the defining equation.                  *)
(***************************************************************************)
EXTENDS KinSpec

Margin == 3000          \* 3e-5: closer to the boundary than this the count is not judged (unless exact)
SameAngle(a, b, t) == FWrapDist(a - b) <= t
SmallAngles(s) == FBounded(s, 2000000000)

J_sub0(e) ==
  LET dp == FAbs(Dot(e.k, e.p)) dq == FAbs(Dot(e.k, e.q)) IN
  IF dp >= 50000 \/ dq >= 50000 THEN Refused(e.r)
  ELSE IF dp > 20 \/ dq > 20 THEN {}
  ELSE WhenOk(e.r, LAMBDA v : Clause(NearV(MVec(Rot(e.k, v), e.p), e.q, Tol), "the angle does not carry p onto q"))

\* Witnesses: angles the instance was built from.  A solution that exists has to be among those returned.
Missing(w, v) == \E x \in 1..Len(w) : ~\E i \in 1..Len(v) : SameAngle(v[i], w[x], 1000)
Missing2(w, v) == \E x \in 1..Len(w) : ~\E i \in 1..Len(v) : SameAngle(v[i][1], w[x][1], 3000) /\ SameAngle(v[i][2], w[x][2], 3000)

J_sub1(e) == WhenOk(e.r, LAMBDA v :
  Clause(NearV(MVec(Rot(e.k, v), e.p), e.q, Tol), "the angle does not carry p onto q")
  \cup Clause(~Missing(e.w, <<v>>), "not the angle between p and q"))

\* number of solutions demanded: "two", "one", "none", or "any" near the boundary
Demand(disc, exact) == IF disc > Margin THEN "two" ELSE IF disc < -Margin THEN "none" ELSE IF exact THEN "one" ELSE "any"
CountOk(dem, n) == CASE dem = "two" -> n = 2 [] dem = "none" -> n = 0 [] dem = "one" -> n = 1 [] OTHER -> n <= 2
CountClause(dem, n) == Clause(CountOk(dem, n),
    CASE dem = "two" -> "not exactly two solutions where two exist"
      [] dem = "none" -> "solutions reported where none exists"
      [] dem = "one" -> "not exactly one solution where the solutions coincide"
      [] OTHER -> "more than two solutions")
Distinct1(v) == \A i, j \in 1..Len(v) : i < j => ~SameAngle(v[i], v[j], 1000)

\* discriminant of the two-cone problem, times |k1 x k2|^2
Disc2(p, q, k1, k2) ==
  LET k12 == Dot(k1, k2)  pk == Dot(p, k2)  qk == Dot(q, k1)
      D == FOne - FMul(k12, k12)
      A == qk - FMul(k12, pk)  B == pk - FMul(k12, qk)
  IN FMul(NormSq(p), D) - (FMul(A, qk) + FMul(B, pk))
J_sub2(e) ==
  LET k12 == Dot(e.k1, e.k2)
      parallel == FAbs(k12) >= FOne - 10
      dem == IF parallel THEN "none" ELSE Demand(Disc2(e.p, e.q, e.k1, e.k2), e.exact)
  IN WhenOk(e.r, LAMBDA v :
       CountClause(dem, Len(v))
       \cup Clause(e.touch => Len(v) = 1, "not exactly one solution where the cones touch")
       \cup Clause(\A i \in 1..Len(v) : NearV(MVec(Rot(e.k1, v[i][1]), MVec(Rot(e.k2, v[i][2]), e.p)), e.q, e.tol),
                   "a pair of angles does not carry p onto q")
       \cup Clause(\A i \in 1..Len(e.w) : NearV(MVec(Rot(e.k1, e.w[i][1]), MVec(Rot(e.k2, e.w[i][2]), e.p)), e.q, Tol), "HARNESS: not a witness")
       \cup Clause(~Missing2(e.w, v), "a solution that exists is not returned")
       \cup Clause(dem = "two" => \A i, j \in 1..Len(v) : i < j => ~(SameAngle(v[i][1], v[j][1], 1000) /\ SameAngle(v[i][2], v[j][2], 1000)),
                   "the same solution twice"))

Proj(v, k) == Sub(v, Scale(Dot(v, k), k))
\* || q + R p || = d:   2 qp.R pp = d^2 - (k.(p+q))^2 - |pp|^2 - |qp|^2
J_sub3(e) ==
  LET pp == Proj(e.p, e.k)  qp == Proj(e.q, e.k)
      a == NormSq(pp)  b == NormSq(qp)
      h == Dot(e.k, Add(e.p, e.q))
      c == (FSq(e.d) - FSq(h) - a - b) \div 2
      disc == FMul(a, b) - FSq(c)
      dem == Demand(disc, e.exact)
      exactdem == e.exact
  IN WhenOk(e.r, LAMBDA v :
       (IF exactdem THEN Clause(Len(v) \in 1..2 , "no solution where the solutions coincide") ELSE CountClause(dem, Len(v)))
       \cup Clause(\A i \in 1..Len(v) : FNear(NormSq(Add(e.q, MVec(Rot(e.k, v[i]), e.p))), FSq(e.d), 2*Tol),
                   "an angle does not give the requested distance")
       \cup Clause(\A i \in 1..Len(e.w) : FNear(NormSq(Add(e.q, MVec(Rot(e.k, e.w[i]), e.p))), FSq(e.d), 2*Tol), "HARNESS: not a witness")
       \cup Clause(~Missing(e.w, v), "a solution that exists is not returned")
       \cup Clause(dem = "two" => Distinct1(v), "the same solution twice"))

\* p' R q = d:   a sin + b cos = c
J_sub4(e) ==
  LET a == Dot(e.p, Cross(e.k, e.q))
      pq == Dot(e.p, e.q)
      b == pq - FMul(Dot(e.k, e.p), Dot(e.k, e.q))
      c == e.d - (pq - b)
      disc == FSq(a) + FSq(b) - FSq(c)
      dem == Demand(disc, e.exact)
  IN WhenOk(e.r, LAMBDA v :
       (IF e.exact THEN Clause(Len(v) \in 1..2 , "no solution where the solutions coincide") ELSE CountClause(dem, Len(v)))
       \cup Clause(\A i \in 1..Len(v) : FNear(Dot(e.p, MVec(Rot(e.k, v[i]), e.q)), e.d, Tol),
                   "an angle does not give the requested displacement")
       \cup Clause(\A i \in 1..Len(e.w) : FNear(Dot(e.p, MVec(Rot(e.k, e.w[i]), e.q)), e.d, Tol), "HARNESS: not a witness")
       \cup Clause(~Missing(e.w, v), "a solution that exists is not returned")
       \cup Clause(dem = "two" => Distinct1(v), "the same solution twice"))
=============================================================================
