-------------------------------- MODULE MsgSpec --------------------------------
(* Judging message conversions.  Copied components are compared as exact      *)
(* texts of the floating-point numbers; rotations in fixed point.             *)
EXTENDS TessSpec, Msg
AsQuat(m) == <<m.w, m.x, m.y, m.z>>
IsQuatMsgOf(m, R) == /\ m.type = "Quaternion"
                     /\ LET q == AsQuat(m) IN FBounded(q, RotBound) /\ UnitQ(q, 2*Tol) /\ NearM(Q2R(q), R, Tol)
\* a message for the position token p and rotation R, names pa, ch
FrameMsgOk(m, ty, p, R, pa, ch) ==
  Clause(m.type = ty, "wrong message type")
  \cup (IF m.type # ty THEN {} ELSE
    LET want == FrameMsg(ty, p, <<0,0,0,0>>, pa, ch)
        pos(x) == CASE ty = "Transform" -> x.translation [] ty = "Pose" -> x.position [] ty = "TransformStamped" -> x.transform.translation [] OTHER -> x.pose.position
        ori(x) == CASE ty = "Transform" -> x.rotation [] ty = "Pose" -> x.orientation [] ty = "TransformStamped" -> x.transform.rotation [] OTHER -> x.pose.orientation
    IN Clause(pos(m) = pos(want), "position is not in its fields")
       \cup Clause(IsQuatMsgOf(ori(m), R), "rotation is not in its fields")
       \cup (IF ty \in {"TransformStamped", "PoseStamped"} THEN Clause(m.frame_id = want.frame_id, "wrong parent frame name in the message") ELSE {})
       \cup (IF ty = "TransformStamped" THEN Clause(m.child_frame_id = want.child_frame_id, "wrong child frame name in the message") ELSE {}))
J_msg(e) ==
  CASE e.fn = "refuse" -> Refused(e.r)
    [] OTHER -> WhenOk(e.r, LAMBDA v : Clause(v.kept, "an argument was changed") \cup
       (CASE e.fn = "q2msg" -> Clause(v.m = QuatMsg(e.a), "quaternion components are not in their fields")
          [] e.fn = "msg2q" -> Clause(v.a = MsgQuat(e.m), "not the quaternion of the message")
          [] e.fn = "R2msg" -> Clause(IsQuatMsgOf(v.m, e.R), "not the quaternion of the rotation")
          [] e.fn = "msg2R" -> Clause(NearM(v.R, Q2R(AsQuat(e.m)), Tol), "not the rotation of the message")
          [] e.fn = "p2msg" -> Clause(v.m = VecMsg("Vector3", e.a), "vector components are not in their fields")
          [] e.fn = "p2point_msg" -> Clause(v.m = VecMsg("Point", e.a), "point components are not in their fields")
          [] e.fn \in {"msg2p", "point_msg2p"} -> Clause(v.a = MsgVec(e.m), "not the vector of the message")
          [] e.fn = "twist2msg" -> Clause(v.m = TwistMsg(e.a), "twist components are not in their fields")
          [] e.fn = "wrench2msg" -> Clause(v.m = WrenchMsg(e.a), "wrench components are not in their fields")
          [] e.fn = "msg2twist" -> Clause(v.a = MsgTwist(e.m), "not the twist of the message")
          [] e.fn = "msg2wrench" -> Clause(v.a = MsgWrench(e.m), "not the wrench of the message")
          \* a transform packed, seen on the wire, and unpacked
          [] e.fn = "pack" -> FrameMsgOk(v.m, e.ty, e.x.p, e.x.R, e.x.pa, e.x.ch)
          [] e.fn = "unpack" -> Clause(v.x.p = MsgPos(e.m), "not the position of the message")
                                \cup Clause(NearM(v.x.R, Q2R(MsgOri(e.m)), Tol), "not the rotation of the message")
                                \cup Clause(v.x.pa \in MsgParent(e.m), "wrong parent frame name")
                                \cup Clause(v.x.ch \in MsgChild(e.m), "wrong child frame name")
          \* unpack(pack(x)), possibly through several types
          [] e.fn = "trip" -> LET all(S) == \A i \in 1..Len(e.path) : e.path[i] \in S IN
                              Clause(v.x.p = e.x.p, "the position did not survive the round trip")
                                \cup Clause(NearM(v.x.R, e.x.R, 2*Tol), "the rotation did not survive the round trip")
                                \cup Clause(v.x.pa \in (IF all({"TransformStamped", "PoseStamped"}) THEN Read(Wire(e.x.pa)) ELSE {"-", ""}), "the parent frame name did not survive the round trip")
                                \cup Clause(v.x.ch \in (IF all({"TransformStamped"}) THEN Read(Wire(e.x.ch)) ELSE {"-", ""}), "the child frame name did not survive the round trip")
          [] e.fn = "vtrip" -> Clause(v.a = e.a, "the value did not survive the round trip")
          [] OTHER -> {"HARNESS: unknown message function"}))
=============================================================================
