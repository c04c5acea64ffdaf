-------------------------------- MODULE IkSpec --------------------------------
(***************************************************************************)
(* Inverse kinematics (C12 - C16).                                         *)
(* e.lim is <<>> or <<lower, upper>>; e.last is <<>> or <<previous>>.      *)
(***************************************************************************)
EXTENDS SubSpec
TS == INSTANCE TurnSpec WITH Turn <- FTwoPi

\* well-formed list of finite joint vectors of the right length
IkShape(v, n) == \A i \in 1..Len(v) : Len(v[i]) = n
SameConf(a, b, t) == \A j \in 1..Len(a) : FWrapDist(a[j] - b[j]) <= t
IdConf(a, b, t) == \A j \in 1..Len(a) : FNear(a[j], b[j], t)
Slack == 100         \* rounding of reported values at a limit
Edge == 1000         \* closer than this to a limit either answer is accepted
PoseTol == 400
WithinLim(lim, q) == lim = <<>> \/ \A j \in 1..Len(q) : lim[1][j] - Slack <= q[j] /\ q[j] <= lim[2][j] + Slack
\* some turn of every joint is safely inside the limits
CanFit(lim, q) == lim = <<>> \/ \A j \in 1..Len(q) : TS!Fits(q[j], lim[1][j] + Edge, lim[2][j] - Edge)

(* distance from the singularities of the two closed-form families: the     *)
(* shoulder, elbow and wrist factors of the arm Jacobian                    *)
NonSing(fam, rob, q) ==
  LET R3 == Rot(rob.H[3], q[3])  R2 == Rot(rob.H[2], q[2])
      \* an offset along axis 5 acts the same on either side of joint 5
      p5 == Add(rob.P[5], Scale(Dot(rob.H[5], rob.P[6]), rob.H[5]))
      far == IF fam = "ur" THEN Add(rob.P[4], MVec(Rot(rob.H[4], q[4]), p5)) ELSE rob.P[4]
      w1 == Add(rob.P[2], MVec(R2, Add(rob.P[3], MVec(R3, far))))
      a == Proj(rob.P[3], rob.H[3])
      b == MVec(R3, Proj(rob.P[4], rob.H[3]))
      ab == Add(a, b)
      h6 == MVec(Rot(rob.H[5], q[5]), rob.H[6])
  IN /\ FAbs(Dot(rob.H[2], Cross(rob.H[1], w1))) >= 300000
     /\ FAbs(Dot(rob.H[3], Cross(a, b))) >= 200000
     /\ NormSq(ab) >= 50000
     /\ FAbs(Dot(rob.H[4], Cross(rob.H[5], h6))) >= 500000

(* The arm shapes for which the closed forms are meant.  Spherical wrist: joints 2 and 3 parallel,      *)
(* offsets 5 and 6 along axes 4 and 6, in any orientation of the arm.  UR: the axes of a UR arm in its  *)
(* base frame, no offset across joint 6 other than along axis 5.                                        *)
FamilyOk(fam, rob) ==
  LET A(v, k) == FBounded(Cross(v, k), 20) IN
  /\ Len(rob.jt) = 6 /\ \A j \in 1..6 : rob.jt[j] = 0
  /\ A(rob.H[2], rob.H[3])
  /\ IF fam = "ur"
     THEN /\ A(rob.H[1], Ez) /\ A(rob.H[2], Ey) /\ A(rob.H[4], Ey) /\ A(rob.H[5], Ez) /\ A(rob.H[6], Ey)
          \* axis 1 up, axis 5 down, the others all to the same side
          /\ rob.H[1][3] > 0 /\ rob.H[5][3] < 0 /\ \A j \in {3, 4, 6} : (rob.H[j][2] > 0) = (rob.H[2][2] > 0)
          /\ FAbs(rob.P[6][1]) <= 20
     ELSE A(rob.P[5], rob.H[4]) /\ A(rob.P[6], rob.H[6])

Same0(r, v) == \E i \in 1..Len(r) : SameConf(r[i], v, 1000)

\* C12: every answer is finite, within the limits and reaches the pose
\* (an arm outside the family may be refused, but not answered wrongly)
J_iksound(e) == IF e.r.k = "exc" /\ ~FamilyOk(e.fam, e.rob) THEN {} ELSE WhenOk(e.r, LAMBDA v :
  IF ~IkShape(v, Len(e.rob.jt)) THEN {"a solution does not have one value per joint"}
  ELSE Clause(\A i \in 1..Len(v) : WithinLim(e.lim, v[i]), "a solution is outside the joint limits")
       \cup Clause(\A i \in 1..Len(v) : NearT(Fwd(e.rob, v[i]), e.T, PoseTol), "a solution does not reach the requested pose"))

\* C13: e.cands are joint vectors claimed to reach the pose; those that do, are regular and fit must be found
J_ikcomplete(e) ==
  IF ~FamilyOk(e.fam, e.rob) THEN {"HARNESS: robot outside the family"}
  ELSE WhenOk(e.r, LAMBDA v :
  IF ~IkShape(v, 6) THEN {"a solution does not have one value per joint"}
  ELSE Clause((e.last # <<>> /\ v # <<>>) \/ \A i \in 1..Len(e.cands) : LET c == e.cands[i] IN
                (CanFit(e.lim, c) /\ ~(\E k \in 1..Len(v) : SameConf(v[k], c, 1000)) /\ NonSing(e.fam, e.rob, c))
                   => ~NearT(Fwd(e.rob, c), e.T, PoseTol),
              IF v = <<>> THEN "no solution for a reachable pose" ELSE "a solution branch is missing")
       \cup Clause(\A i, j \in 1..Len(v) : (i < j /\ SameConf(v[i], v[j], 1000)) => ~NonSing(e.fam, e.rob, v[i]), "a solution is returned twice")
       \cup Clause((e.far /\ e.last = <<>>) => v = <<>>, "solutions for a pose out of reach"))

\* squared distance, scaled down to stay representable
DistSq(a, b) == LET d[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE d[i-1] + FSq((a[i] - b[i]) \div 16) IN d[Len(a)]
Sorted(v, last) == \A i \in 1..(Len(v)-1) : DistSq(v[i], last) <= DistSq(v[i+1], last) + 30
NearestOk(lim, j, x, last) ==
  IF lim = <<>> THEN FAbs(x - last) <= FPi + Edge
  ELSE \A y \in TS!Reach(x, lim[1][j] + Edge, lim[2][j] - Edge) : FAbs(x - last) <= FAbs(y - last) + Edge
\* the in-limit turn of c within a quarter turn of last in every joint, if there is one
QuarterOf(lim, c, last) ==
  LET near(j) == last[j] + FWrap(c[j] - last[j])
      ok == \A j \in 1..Len(c) : /\ FAbs(near(j) - last[j]) <= FHalfPi - Edge
                                 /\ lim = <<>> \/ (lim[1][j] + Edge <= near(j) /\ near(j) <= lim[2][j] - Edge)
  IN IF ok THEN << [j \in 1..Len(c) |-> near(j)] >> ELSE <<>>
\* C14
J_iknear(e) == WhenOk(e.r, LAMBDA v :
  LET last == e.last[1] IN
  IF ~IkShape(v, 6) THEN {"a solution does not have one value per joint"}
  ELSE Clause(Sorted(v, last), "solutions are not sorted by distance to the previous joints")
       \cup Clause(\A i \in 1..Len(v) : \A j \in 1..6 : NearestOk(e.lim, j, v[i][j], last[j]), "a joint value is not the nearest turn its limits allow")
       \cup (IF e.r0.k # "ok" \/ ~IkShape(e.r0.v, 6) THEN {}
             ELSE Clause(\A i \in 1..Len(v) : Same0(e.r0.v, v[i]) \/ ~NonSing(e.fam, e.rob, v[i]), "a configuration that is no solution without previous joints"))
       \cup Clause(\A i \in 1..Len(e.cands) : LET c == e.cands[i]  t == QuarterOf(e.lim, c, last) IN
                     t = <<>> \/ ~NonSing(e.fam, e.rob, c) \/ \E k \in 1..Len(v) : IdConf(v[k], t[1], 1000),
                   "a solution within a quarter turn of the previous joints is missing"))

\* C14 along a path: the first solution stays on the path the arm is following
J_iktrack(e) == WhenOk(e.r, LAMBDA v :
  IF v = <<>> THEN {"tracking lost the arm"}
  ELSE IF ~IkShape(v, 6) THEN {"a solution does not have one value per joint"}
  ELSE Clause(IdConf(v[1], e.q, 2000), "tracking left the branch or turn the arm is on"))

(* C15 *)
RotOf(jt) == [j \in 1..Len(jt) |-> Rotary(jt[j])]
Grow(s, d) == [j \in 1..Len(s) |-> s[j] + d]
IsShift(jt, a, b) == \A j \in 1..Len(a) : IF Rotary(jt[j]) THEN FWrapDist(a[j] - b[j]) <= 50 ELSE FNear(a[j], b[j], 10)
J_equiv(e) == WhenOk(e.r, LAMBDA v :
  LET n == Len(e.jt)
      m == IF e.exact THEN -20 ELSE Edge
      must == UNION { TS!Shifts(e.qs[i], Grow(e.lim[1], m), Grow(e.lim[2], -m), RotOf(e.jt)) : i \in 1..Len(e.qs) }
      given(c) == \E i \in 1..Len(e.qs) : IdConf(e.qs[i], c, 200)
  IN IF ~IkShape(v, n) THEN {"a configuration does not have one value per joint"}
     ELSE Clause(\A c \in must : given(c) \/ \E k \in 1..Len(v) : IdConf(v[k], c, 200), "an equivalent configuration is missing")
          \cup Clause(\A k \in 1..Len(v) : \E i \in 1..Len(e.qs) : IsShift(e.jt, e.qs[i], v[k]), "a configuration is not a full-turn shift of a rotary joint")
          \cup Clause(\A k \in 1..Len(v) : WithinLim(e.lim, v[k]), "a configuration is outside the joint limits")
          \cup Clause(\A k \in 1..Len(v) : ~given(v[k]), "a configuration already given is returned again")
          \cup Clause(\A i, j \in 1..Len(v) : i < j => ~IdConf(v[i], v[j], 200), "a configuration is returned twice")
          \cup Clause(e.last = <<>> \/ Sorted(v, e.last[1]), "configurations are not sorted by distance to the previous joints"))

(* C16 *)
\* orientation error within the tolerance on sin(angle/2) * axis, position error within it on each tool axis
PoseWithin(T, D, tol, tolp) ==
  LET E == MMul(MTrans(D.R), T.R)  x == Vee2(E)  d == MVec(MTrans(T.R), Sub(T.p, D.p)) IN
  /\ Trace3(E) >= FOne
  /\ \A i \in 1..3 : FAbs(x[i]) <= 4*tol + Tol /\ FAbs(d[i]) <= tolp + Tol
SumSq(s) == LET d[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE d[i-1] + FSq(s[i]) IN d[Len(s)]
IT == INSTANCE IterSpec
J_itik(e) == WhenOk(e.r, LAMBDA v :
  LET n == Len(e.rob.jt) IN
  IF Len(v.qs) = 0 \/ ~IkShape(v.qs, n) THEN {"the result does not have one value per joint"}
  ELSE LET q == v.qs[1] IN
       Clause(v.conv => IT!MayConverge(e.budget, PoseWithin(Fwd(e.rob, q), e.T, e.tol, e.tolp)), "reported convergence but the joints do not reach the pose")
       \cup Clause(\A j \in 1..n : Rotary(e.rob.jt[j]) => FAbs(q[j] - e.seed[j]) <= FPi + Edge, "a rotary joint is not on the turn nearest the seed")
       \cup Clause(e.kind = "solved" => ((IT!MustConverge(e.budget, TRUE) => v.conv) /\ (~IT!MayMove(e.budget, TRUE) => IdConf(q, e.seed, Tol))), "started from a solution but did not return it")
       \cup Clause(e.kind = "near" => v.conv, "did not converge next to a regular solution")
       \cup Clause(e.kind \in {"far", "nosteps"} => ~v.conv, "reported convergence for a pose it cannot have reached")
       \cup Clause(e.kind = "nosteps" => IdConf(q, e.seed, Tol), "moved without taking a step"))
=============================================================================
