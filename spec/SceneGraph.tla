------------------------------ MODULE SceneGraph ------------------------------
(***************************************************************************)
(* Scene graphs of robots (C21, C22): the links and joints a robot stands  *)
(* for, the environment that holds several robots under one world link,    *)
(* and the pose of a link by walking the graph, independently of Kin.      *)
(*   names   <<>> when the robot has no joint names, else << sequence >>   *)
(***************************************************************************)
EXTENDS Tf
RECURSIVE Num(_)
Num(i) == CASE i = 0 -> "0" [] i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] i = 5 -> "5" [] i = 6 -> "6" [] i = 7 -> "7" [] i = 8 -> "8" [] i = 9 -> "9" [] OTHER -> Num(i \div 10) \o Num(i % 10)
SgN(rob) == Len(rob.jt)
SgChainLinks(rob) == <<"base_link">> \o [i \in 1..SgN(rob) |-> "link_" \o Num(i)]
SgLinks(rob) == SgChainLinks(rob) \o <<"chain_tip">> \o (IF rob.flange = <<>> THEN <<>> ELSE <<"flange">>) \o (IF rob.tool = <<>> THEN <<>> ELSE <<"tool_tcp">>)
SgJointNames(rob, names) == IF names = <<>> THEN [i \in 1..SgN(rob) |-> "joint_" \o Num(i)] ELSE names[1]
\* joint: [n, pa, ch, type, o (origin in the parent), axis]
SgFixed(n, pa, ch, o) == [n |-> n, pa |-> pa, ch |-> ch, type |-> "fixed", o |-> o, axis |-> Zero3]
SgMoving(rob, names) ==
  [i \in 1..SgN(rob) |-> [n |-> SgJointNames(rob, names)[i], pa |-> SgChainLinks(rob)[i], ch |-> SgChainLinks(rob)[i+1],
                          type |-> IF Rotary(rob.jt[i]) THEN "revolute" ELSE "prismatic", o |-> Shift(rob.P[i]), axis |-> rob.H[i]]]
SgEnd(rob) == IF rob.flange = <<>> THEN "chain_tip" ELSE "flange"
SgJoints(rob, names) ==
  SgMoving(rob, names)
  \o << SgFixed("link_" \o Num(SgN(rob)) \o "_to_chain_tip", "link_" \o Num(SgN(rob)), "chain_tip", Shift(rob.P[SgN(rob)+1])) >>
  \o (IF rob.flange = <<>> THEN <<>> ELSE << SgFixed("tip_to_flange", "chain_tip", "flange", rob.flange[1]) >>)
  \o (IF rob.tool = <<>> THEN <<>> ELSE << SgFixed("tip_to_tool", SgEnd(rob), "tool_tcp", rob.tool[1]) >>)

(* an environment: a sequence of robots [name, rob, names] under "world" *)
Pre(name, x) == name \o "_" \o x
PreSeq(name, s) == [i \in 1..Len(s) |-> Pre(name, s[i])]
EnvRobotJoints(r) ==
  LET js == SgJoints(r.rob, r.names) IN
  << SgFixed("world_to_" \o r.name, "world", Pre(r.name, "base_link"), Opt(r.rob.base)) >>
  \o [i \in 1..Len(js) |-> [js[i] EXCEPT !.n = Pre(r.name, @), !.pa = Pre(r.name, @), !.ch = Pre(r.name, @)]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(SubSeq(ss, 2, Len(ss)))
EnvLinks(env) == <<"world">> \o Concat([i \in 1..Len(env) |-> PreSeq(env[i].name, SgLinks(env[i].rob))])
EnvJoints(env) == Concat([i \in 1..Len(env) |-> EnvRobotJoints(env[i])])
EnvTip(r) == Pre(r.name, SgLinks(r.rob)[Len(SgLinks(r.rob))])

(* pose of a link in the root by walking up a joint list; qs are the values *)
(* of the moving joints in the order in which they appear in the list       *)
MotionOf(j, q) == IF j.type = "revolute" THEN [R |-> Rot(j.axis, q), p |-> Zero3] ELSE [R |-> I3, p |-> Scale(q, j.axis)]
Rank(js, i) == LET RECURSIVE C(_)
                   C(k) == IF k = 0 THEN 0 ELSE C(k-1) + (IF js[k].type = "fixed" THEN 0 ELSE 1)
               IN C(i)
RECURSIVE WalkPose(_, _, _)
WalkPose(js, link, q) ==
  LET above == { i \in 1..Len(js) : js[i].ch = link } IN
  IF above = {} THEN TId
  ELSE LET i == CHOOSE k \in above : TRUE
           T == TMul(WalkPose(js, js[i].pa, q), js[i].o)
       IN IF js[i].type = "fixed" THEN T ELSE TMul(T, MotionOf(js[i], q[Rank(js, i)]))
RelPose(js, a, b, q) == TMul(TInv(WalkPose(js, a, q)), WalkPose(js, b, q))

(* the part of a robot that carries one of its links: number k in SgLinks *)
LinkRob(rob, k) ==
  LET n == SgN(rob)  m == IF k > n + 1 THEN n ELSE k - 1 IN
  IF k <= n + 1
  THEN [rob EXCEPT !.H = SubSeq(@, 1, m), !.jt = SubSeq(@, 1, m), !.P = SubSeq(@, 1, m) \o <<Zero3>>, !.flange = <<>>, !.tool = <<>>]
  ELSE IF SgLinks(rob)[k] = "chain_tip" THEN [rob EXCEPT !.flange = <<>>, !.tool = <<>>]
  ELSE IF SgLinks(rob)[k] = "flange" THEN [rob EXCEPT !.tool = <<>>]
  ELSE rob
=============================================================================
