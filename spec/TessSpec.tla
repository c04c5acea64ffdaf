------------------------------- MODULE TessSpec -------------------------------
(***************************************************************************)
(* Judging the Tesseract module (C21 - C23).                               *)
(***************************************************************************)
EXTENDS RrSpec
TolT == 600
\* ---- conversion of transforms
J_iso(e) == WhenOk(e.r, LAMBDA v :
     Clause(NearT(v.iso, e.T, 20), "the converted transform is another one")
     \cup Clause(v.row = <<0, 0, 0, FOne>>, "not a rigid transform")
     \cup Clause(NearT(v.back, e.T, 20), "converting there and back changes the transform"))

\* ---- graphs: joints are observed as [n, pa, ch, type, o, axis, lim]
ByName(js, n) == { i \in 1..Len(js) : js[i].n = n }
SameJoint(a, b) == /\ a.pa = b.pa /\ a.ch = b.ch /\ a.type = b.type
GraphClauses(links, joints, wlinks, wjoints) ==
  Clause(Range(links) = Range(wlinks) /\ Len(links) = Len(wlinks), "the links are not those of the robot")
  \cup (IF { joints[i].n : i \in 1..Len(joints) } # { wjoints[i].n : i \in 1..Len(wjoints) } \/ Len(joints) # Len(wjoints)
        THEN {"the joints are not those of the robot"}
        ELSE LET W(j) == wjoints[CHOOSE i \in ByName(wjoints, j.n) : TRUE]
                 js == Range(joints) IN
             Clause(\A j \in js : j.pa = W(j).pa /\ j.ch = W(j).ch, "a joint connects the wrong links")
             \cup Clause(\A j \in js : j.type = W(j).type, "a joint has the wrong type")
             \cup Clause(\A j \in js : NearT(j.o, W(j).o, 100), "a joint has the wrong origin")
             \cup Clause(\A j \in js : j.type # "fixed" => NearV(j.axis, W(j).axis, 20), "a joint has the wrong axis"))
\* limits: lim has one record per joint of the robot; prefix of the names as observed
LimClauses(joints, names, lim) ==
  Clause(\A i \in 1..Len(names) : \A j \in Range(joints) : j.n = names[i] =>
            /\ FNear(j.lim.lo, lim[i].lo, 2) /\ FNear(j.lim.up, lim[i].up, 2) /\ FNear(j.lim.vel, lim[i].vel, 2) /\ FNear(j.lim.acc, lim[i].acc, 2),
         "a joint has the wrong limits")
J_sg(e) == WhenOk(e.r, LAMBDA v :
     GraphClauses(v.links, v.joints, SgLinks(e.rob), SgJoints(e.rob, e.names))
     \cup LimClauses(v.joints, SgJointNames(e.rob, e.names), e.lim)
     \cup Clause(v.linknames = SgLinks(e.rob), "the returned link names do not match the graph")
     \cup Clause(v.jointnames = SgJointNames(e.rob, e.names), "the returned joint names do not match the graph")
     \cup Clause(v.chain = SgChainLinks(e.rob), "the returned chain link names do not match the graph")
     \cup Clause(v.same, "the robot was modified"))
\* an environment of robots added one after the other; per robot the names its call returned
J_envg(e) == WhenOk(e.r, LAMBDA v :
     LET env == e.env IN
     GraphClauses(v.links, v.joints, EnvLinks(env), EnvJoints(env))
     \cup UNION { LET r == env[i]  o == v.ret[i] IN
            LimClauses(v.joints, PreSeq(r.name, SgJointNames(r.rob, r.names)), r.lim)
            \cup Clause(o.links = (IF i = 1 THEN <<"world">> ELSE <<>>) \o PreSeq(r.name, SgLinks(r.rob)), "the returned link names are not those of the environment")
            \cup Clause(o.joints = PreSeq(r.name, SgJointNames(r.rob, r.names)), "the returned joint names are not those of the environment")
            \cup Clause(o.group = << <<"world", EnvTip(r)>> >>, "the kinematic group does not span world to tip")
            \cup Clause(o.gjoints = PreSeq(r.name, SgJointNames(r.rob, r.names)), "the kinematic group does not have the joints of the robot in order")
            \cup Clause(NearT(o.T, Fwd(r.rob, o.q), TolT), "a robot of the environment does not move as the robot does")
            : i \in 1..Len(env) }
     \cup Clause(v.same, "a robot was modified"))
\* one link with its joint
J_lj(e) ==
  IF e.type \notin {0, 1, -1} THEN Refused(e.r)
  ELSE WhenOk(e.r, LAMBDA v :
     Clause(v.link = e.link /\ v.j.n = e.joint /\ v.j.pa = e.pa /\ v.j.ch = e.link, "a joint connects the wrong links")
     \cup Clause(v.j.type = (CASE e.type = 0 -> "revolute" [] e.type = 1 -> "prismatic" [] OTHER -> "fixed"), "a joint has the wrong type")
     \cup Clause(NearT(v.j.o, e.o, 20), "a joint has the wrong origin")
     \cup (IF e.type = -1 THEN {} ELSE
           Clause(NearV(v.j.axis, e.axis, 2), "a joint has the wrong axis")
           \cup Clause(/\ FNear(v.j.lim.lo, e.lim.lo, 2) /\ FNear(v.j.lim.up, e.lim.up, 2) /\ FNear(v.j.lim.vel, e.lim.vel, 2)
                       /\ FNear(v.j.lim.acc, e.lim.acc, 2) /\ FNear(v.j.lim.eff, e.lim.eff, 2), "a joint has the wrong limits")))

\* ---- kinematics information: one chain group per robot, from the base link to the tip link
J_kinfo(e) == WhenOk(e.r, LAMBDA v : Clause(Len(v) = Len(e.want) /\ Range(v) = Range(e.want), "the kinematics groups are not the chains of the robots"))

\* ---- plugin information
Kdl == {"KDLInvKinChainLMA", "KDLInvKinChainNR"}
Solvers == Kdl \cup {"OPWInvKin", "URInvKin"}
J_plugin(e) ==
  LET sv == IF e.solver = "-" THEN "KDLInvKinChainLMA" ELSE e.solver
      base == IF e.base = "-" THEN e.links[1] ELSE e.base
      tip == IF e.tip = "-" THEN e.links[Len(e.links)] ELSE e.tip
      pl == IF sv \in Kdl THEN Kdl ELSE {sv}
      fl == Pre(e.name, "flange")
      lib == IF sv \in Kdl THEN "tesseract_kinematics_kdl_factories" ELSE IF sv = "OPWInvKin" THEN "tesseract_kinematics_opw_factories" ELSE "tesseract_kinematics_ur_factories"
  IN IF e.custom # "-"
     THEN WhenOk(e.r, LAMBDA v : Clause(v.inv.default = e.custom /\ "custom_lib" \in Range(v.libs), "the given plugin information is not used")
                                 \cup Clause(v.fwd.base = base /\ v.fwd.tip = tip, "wrong base or tip link"))
     ELSE IF sv \notin Solvers THEN Refused(e.r)
     ELSE WhenOk(e.r, LAMBDA v :
        Clause(v.fwd.default = "KDLFwdKinChain" /\ v.fwd.class = "KDLFwdKinChainFactory" /\ v.fwd.base = base /\ v.fwd.tip = tip, "wrong forward kinematics plugin")
        \cup Clause(v.inv.default = sv, "not the requested solver")
        \cup Clause({ p.n : p \in Range(v.inv.plugins) } = pl /\ Len(v.inv.plugins) = Cardinality(pl), "wrong set of solvers")
        \cup Clause(\A p \in Range(v.inv.plugins) : p.class = p.n \o "Factory", "wrong solver class")
        \cup Clause(\A p \in Range(v.inv.plugins) : p.base = (IF sv = "OPWInvKin" THEN e.chain[1] ELSE base), "wrong base link")
        \cup Clause(\A p \in Range(v.inv.plugins) : p.tip = (IF sv \in Kdl THEN tip ELSE fl), "wrong tip link")
        \cup Clause(\A p \in Range(v.inv.plugins) : p.params = e.params, "the parameters are not those of the robot")
        \cup Clause(lib \in Range(v.libs), "the library of the solver is missing"))

\* ---- kinematics: the robot is alone in its environment or one of several
J_tfwd(e) == WhenOk(e.r, LAMBDA v :
     LET js == EnvRobotJoints([name |-> e.name, rob |-> e.rob, names |-> <<>>])
         b == IF e.b = "-" THEN EnvTip([name |-> e.name, rob |-> e.rob]) ELSE e.b IN
     Clause(NearT(v, IF e.a = "-" THEN WalkPose(js, b, e.q) ELSE RelPose(js, e.a, b, e.q), TolT), "not the pose of the link in the base link"))
\* k: number of the link; base: 0 world, 1 the base link (which does not move)
J_tjac(e) == WhenOk(e.r, LAMBDA v :
     LET n == SgN(e.rob)
         lr == LinkRob(e.rob, e.k)
         m == Len(lr.jt)
         Rb == IF e.base = 0 THEN I3 ELSE MTrans(Opt(e.rob.base).R)
         C(i) == IF i > m THEN [w2 |-> Zero3, v |-> Zero3]
                 ELSE LET c == VelCol(lr, SubSeq(e.q, 1, m), i) IN [w2 |-> MVec(Rb, c.w2), v |-> MVec(Rb, c.v)]
     IN IF v.cols # n THEN {"Jacobian has the wrong number of columns"}
        ELSE IF ~FBounded(v.J, 10*FOne) THEN {"Jacobian is out of proportion"}
        ELSE Clause(\A i \in 1..n : NearCol(v.J, n, i, C(i)), "a column is not the velocity of the link per unit joint rate"))
\* every solution reproduces the pose; find: at least one is known to exist and is found
J_tik(e) == WhenOk(e.r, LAMBDA v :
     LET js == EnvRobotJoints([name |-> e.name, rob |-> e.rob, names |-> <<>>])
         b == IF e.b = "-" THEN EnvTip([name |-> e.name, rob |-> e.rob]) ELSE e.b
     IN Clause(\A i \in 1..Len(v) : /\ Len(v[i]) = SgN(e.rob)
                                    /\ NearT(IF e.a = "-" THEN WalkPose(js, b, v[i]) ELSE RelPose(js, e.a, b, v[i]), e.T, e.tol),
               "a solution does not reproduce the pose")
        \cup Clause(e.find => Len(v) > 0, "no solution although one exists"))
\* the same posture with rotary joints turned by whole turns, inside the limits
J_tred(e) == WhenOk(e.r, LAMBDA v :
     LET n == SgN(e.rob)
         Vals(i) == IF Rotary(e.rob.jt[i]) THEN { e.q[i] + k * FTwoPi : k \in { x \in -3..3 : FAbs(e.q[i] \div 1000 + x * (FTwoPi \div 1000)) < 2000000 /\ e.lo[i] <= e.q[i] + x * FTwoPi /\ e.q[i] + x * FTwoPi <= e.up[i] } } ELSE {e.q[i]}
         Cnt[i \in 0..n] == IF i = 0 THEN 1 ELSE Cnt[i-1] * Cardinality(Vals(i))
     IN Clause(\A i \in 1..Len(v) : Len(v[i]) = n /\ \A k \in 1..n : \E x \in Vals(k) : FNear(v[i][k], x, 20), "a redundant solution is another posture or outside the limits")
        \cup Clause(\A i, k \in 1..Len(v) : i # k => \E j \in 1..n : FAbs(v[i][j] - v[k][j]) > 1000, "a redundant solution is repeated")
        \cup Clause(\A i \in 1..Len(v) : \E j \in 1..n : FAbs(v[i][j] - e.q[j]) > 1000, "the given solution is among the redundant ones")
        \cup Clause(Len(v) = Cnt[n] - 1, "not all redundant solutions are given"))

\* ---- parameters of the closed-form solvers
\* the parameters stand for the same arm at every recorded joint vector
OpwSame(e, v) == \A i \in 1..Len(e.qs) :
     NearT(OpwFwd(v, v.off, v.sg, e.qs[i]), Fwd([e.rob EXCEPT !.base = <<>>, !.tool = <<>>], e.qs[i]), 3000)
UrSame(e, v) == \A i \in 1..Len(e.qs) : NearT(UrFwd(v, e.qs[i]), Fwd([e.rob EXCEPT !.tool = <<>>], e.qs[i]), 1500)
J_par(e) ==
  LET ok(v) == IF e.fam = "opw" THEN /\ \A i \in 1..6 : v.sg[i] \in {1, -1}
                                     /\ FBounded(v.off, 10 * FOne)
                                     /\ OpwSame(e, v)
               ELSE UrSame(e, v)
  IN IF ~e.fits /\ e.r.k = "exc" THEN {}
     ELSE IF ~e.fits THEN {"parameters are given for a robot that does not fit the family"}
     ELSE WhenOk(e.r, LAMBDA v : Clause(ok(v), "the parameters describe another arm") \cup Clause(v.same, "the robot was modified"))
=============================================================================
