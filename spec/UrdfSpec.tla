------------------------------- MODULE UrdfSpec -------------------------------
(* Judging loaded URDF robots. *)
EXTENDS SessSpec, Urdf
One1(o, d) == IF o = <<>> THEN d ELSE o[1]
OriginT(j) == [R |-> IF j.rpy = <<>> THEN I3 ELSE Rpy2R(j.rpy[1]), p |-> One1(j.xyz, Zero3)]
AxisOf(j) == One1(j.axis, Ex)
UMotion(j, q) == IF j.type = "revolute" THEN [R |-> Rot(AxisOf(j), q), p |-> Zero3]
                 ELSE IF j.type = "prismatic" THEN [R |-> I3, p |-> Scale(q, AxisOf(j))] ELSE TId
\* pose of the tip in the root link: the tree's own definition
RECURSIVE TreePose(_, _, _)
TreePose(t, p, q) ==
  IF p = <<>> THEN TId
  ELSE LET j == t.joints[p[1]]
           mv == j.type # "fixed"
           q2 == IF mv THEN SubSeq(q, 2, Len(q)) ELSE q
       IN TMul(TMul(OriginT(j), IF mv THEN UMotion(j, q[1]) ELSE TId), TreePose(t, SubSeq(p, 2, Len(p)), q2))

J_urdffwd(e) ==
  LET o == Outcome(e.tree, e.root, e.tip) IN
  IF o.k = "refuse" THEN {"HARNESS: no chain"}
  ELSE WhenOk(e.r, LAMBDA v : IF v.n # Len(e.q) THEN {"the robot does not have the movable joints of the chain"}
     ELSE LET T == TreePose(e.tree, o.path, e.q) IN
         Clause(NearT(v.T, T, 2*Tol), "the loaded robot does not move as the URDF tree says"))

\* joint data: value lists of all movable joints, present when every joint has the element
All(js, f(_)) == \A i \in 1..Len(js) : f(js[i])
J_urdf(e) ==
  LET o == Outcome(e.tree, e.root, e.tip) IN
  IF o.k = "refuse" THEN Refused(e.r)
  ELSE IF o.k = "either" THEN {}
  ELSE WhenOk(e.r, LAMBDA v :
    LET m == MoveIdx(e.tree, o.path)
        js == [i \in 1..Len(m) |-> e.tree.joints[m[i]]]
        haslim == \A i \in 1..Len(js) : js[i].lim # <<>>
        vals(g(_)) == [i \in 1..Len(js) |-> g(js[i].lim[1])]
        want(g(_)) == IF haslim THEN << vals(g) >> ELSE <<>>
        near(a, b) == Len(a) = Len(b) /\ (a # <<>> => FNearSeq(a[1], b[1], 2))
    IN Clause(v.names = [i \in 1..Len(js) |-> js[i].n], "not the movable joints of the chain in order")
       \cup Clause(v.types = [i \in 1..Len(js) |-> IF js[i].type = "revolute" THEN 0 ELSE 1], "wrong joint types")
       \cup Clause(v.root = o.root /\ v.tip = o.tip, "wrong root or tip link")
       \cup (IF Len(v.names) # Len(js) THEN {} ELSE
             Clause(near(v.lo, want(LAMBDA x : One1(x.lower, 0))) /\ near(v.up, want(LAMBDA x : One1(x.upper, 0))), "wrong position limits")
             \cup Clause(near(v.vel, want(LAMBDA x : x.velocity)), "wrong velocity limits")
             \cup Clause(near(v.eff, want(LAMBDA x : x.effort)), "wrong effort limits")))
=============================================================================
