--------------------------------- MODULE Msg ---------------------------------
(***************************************************************************)
(* Robotics messages (C24): which field of a message carries which         *)
(* component.  Components are opaque tokens: nothing may be computed with  *)
(* them, so every law here holds for every value.                          *)
(* A message is [type |-> its type name, ...fields...]; names of frames    *)
(* are strings, "-" stands for an absent name.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* quaternions in the toolbox are <<w,x,y,z>>, twists and wrenches <<angular/torque, linear/force>>
QuatMsg(q) == [type |-> "Quaternion", w |-> q[1], x |-> q[2], y |-> q[3], z |-> q[4]]
VecMsg(ty, v) == [type |-> ty, x |-> v[1], y |-> v[2], z |-> v[3]]
PairMsg(ty, ang, lin, v) == [f \in {"type", ang, lin} |-> IF f = "type" THEN ty
                                ELSE VecMsg("Vector3", IF f = ang THEN SubSeq(v, 1, 3) ELSE SubSeq(v, 4, 6))]
TwistMsg(v)  == PairMsg("Twist", "angular", "linear", v)
WrenchMsg(v) == PairMsg("Wrench", "torque", "force", v)
TransformMsg(p, q) == [type |-> "Transform", translation |-> VecMsg("Vector3", p), rotation |-> QuatMsg(q)]
PoseMsg(p, q) == [type |-> "Pose", position |-> VecMsg("Point", p), orientation |-> QuatMsg(q)]
Wire(n) == IF n = "-" THEN "" ELSE n
TransformStampedMsg(p, q, pa, ch) == [type |-> "TransformStamped", frame_id |-> Wire(pa), child_frame_id |-> Wire(ch), transform |-> TransformMsg(p, q)]
PoseStampedMsg(p, q, pa) == [type |-> "PoseStamped", frame_id |-> Wire(pa), pose |-> PoseMsg(p, q)]
FrameMsg(ty, p, q, pa, ch) == CASE ty = "Transform" -> TransformMsg(p, q)
                                [] ty = "Pose" -> PoseMsg(p, q)
                                [] ty = "TransformStamped" -> TransformStampedMsg(p, q, pa, ch)
                                [] ty = "PoseStamped" -> PoseStampedMsg(p, q, pa)
FrameTypes == {"Transform", "Pose", "TransformStamped", "PoseStamped"}

\* reading
MsgQuat(m) == <<m.w, m.x, m.y, m.z>>
MsgVec(m) == <<m.x, m.y, m.z>>
MsgTwist(m) == MsgVec(m.angular) \o MsgVec(m.linear)
MsgWrench(m) == MsgVec(m.torque) \o MsgVec(m.force)
MsgPos(m) == CASE m.type = "Transform" -> MsgVec(m.translation) [] m.type = "Pose" -> MsgVec(m.position)
               [] m.type = "TransformStamped" -> MsgVec(m.transform.translation) [] OTHER -> MsgVec(m.pose.position)
MsgOri(m) == CASE m.type = "Transform" -> MsgQuat(m.rotation) [] m.type = "Pose" -> MsgQuat(m.orientation)
               [] m.type = "TransformStamped" -> MsgQuat(m.transform.rotation) [] OTHER -> MsgQuat(m.pose.orientation)
\* the names a message carries: an empty name on the wire may be read as such or as no name
Read(n) == IF n = "" THEN {"-", ""} ELSE {n}
MsgParent(m) == IF m.type \in {"TransformStamped", "PoseStamped"} THEN Read(m.frame_id) ELSE {"-"}
MsgChild(m) == IF m.type = "TransformStamped" THEN Read(m.child_frame_id) ELSE {"-"}
=============================================================================
