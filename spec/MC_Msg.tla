-------------------------------- MODULE MC_Msg --------------------------------
(***************************************************************************)
(* A sender packs values into messages, a relay forwards or repacks them   *)
(* through other message types, a receiver unpacks.  Over all values of    *)
(* distinguishable and of colliding components, all message types, all     *)
(* presence patterns of names and all relay paths up to Depth.             *)
(***************************************************************************)
EXTENDS Msg, TLC, Json
CONSTANTS Depth
VARIABLES val, path, msg
vars == <<val, path, msg>>
\* component patterns: all different, two equal groups, sign pairs
Pats == { [i \in 1..7 |-> i], [i \in 1..7 |-> IF i <= 3 THEN 1 ELSE i], [i \in 1..7 |-> IF i % 2 = 0 THEN -i ELSE i], [i \in 1..7 |-> 0] }
Nm == {"-", "a", "base_link", "tool/0"}
NoMsg == [type |-> "none"]
Init == /\ \E x \in Pats, pa \in Nm, ch \in Nm : val = [p |-> SubSeq(x, 1, 3), q |-> SubSeq(x, 4, 7), pa |-> pa, ch |-> ch]
        /\ path = <<>> /\ msg = NoMsg
Pick(S) == CHOOSE n \in S : n # "" 
Send == /\ path = <<>>
        /\ \E ty \in FrameTypes : path' = <<ty>> /\ msg' = FrameMsg(ty, val.p, val.q, val.pa, val.ch)
        /\ UNCHANGED val
Relay == /\ path # <<>> /\ Len(path) < Depth
         /\ \E ty \in FrameTypes : path' = Append(path, ty) /\ msg' = FrameMsg(ty, MsgPos(msg), MsgOri(msg), Pick(MsgParent(msg)), Pick(MsgChild(msg)))
         /\ UNCHANGED val
Next == Send \/ Relay
Spec == Init /\ [][Next]_vars
All(S) == \A i \in 1..Len(path) : path[i] \in S
Arrives == path # <<>> =>
  /\ MsgPos(msg) = val.p /\ MsgOri(msg) = val.q                 \* whatever the path, the motion arrives
  /\ All({"TransformStamped"}) => (val.pa \in MsgParent(msg) /\ val.ch \in MsgChild(msg))
  /\ All({"TransformStamped", "PoseStamped"}) => val.pa \in MsgParent(msg)
  /\ (~All({"TransformStamped", "PoseStamped"})) => "-" \in MsgParent(msg)   \* a type without names drops them
TwWr == LET v == <<val.p[1], val.p[2], val.p[3], val.q[1], val.q[2], val.q[3]>> IN
        MsgTwist(TwistMsg(v)) = v /\ MsgWrench(WrenchMsg(v)) = v
Export == (Len(path) \in {1, Depth}) => PrintT("CASE " \o ToJson([val |-> val, path |-> path]))
=============================================================================
