-------------------------------- MODULE MC_Sg --------------------------------
(***************************************************************************)
(* Environments of one or two robots over the exact lattice.  Actions add  *)
(* a robot with any combination of frames, or a joint to the last robot.   *)
(* Walking the scene graph gives the kinematics of each robot, the graph   *)
(* is a tree under the world link, and robots do not affect each other.    *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS N,      \* joints in all
          Full,   \* the second robot is as varied as the first
          Rate
VARIABLES env, q
vars == <<env, q>>
TB == << [R |-> Rot(Ez, 1), p |-> <<1,0,2>>] >>
TF == << [R |-> Rot(Ey, 1), p |-> <<0,1,0>>] >>
TT == << [R |-> Rot(Ex, 3), p |-> <<0,-1,1>>] >>
Sub1(o) == {<<>>, o}
RNames == <<"robot", "left_arm">>
Empty(b, f, t) == [H |-> <<>>, P |-> << <<0,0,1>> >>, jt |-> <<>>, base |-> b, flange |-> f, tool |-> t]
GivenNames == <<"elbow", "joint_1", "x", "link_1">>
Init == env = <<>> /\ q = <<>>
AddRobot == /\ Len(env) < 2 /\ (env # <<>> => SgN(env[1].rob) > 0)
            /\ \E b \in Sub1(TB), f \in Sub1(TF), t \in Sub1(TT), g \in BOOLEAN :
                 /\ Len(env) = 1 => b = TB /\ (Full \/ ~g)
                 /\ env' = Append(env, [name |-> RNames[Len(env)+1], rob |-> Empty(b, f, t), names |-> IF g THEN << <<>> >> ELSE <<>>])
            /\ UNCHANGED q
AddJoint == /\ env # <<>> /\ Len(q) < N
            /\ \E h \in {Ex, Ez, Neg(Ey)}, t \in {0, 1}, o \in {Zero3, <<1,0,-1>>}, x \in {1, 3} :
                 LET r == env[Len(env)]  n == SgN(r.rob) IN
                 /\ (Len(env) = 2 /\ ~Full) => (h = Neg(Ey) /\ o # Zero3 /\ x = 1)
                 /\ env' = [env EXCEPT ![Len(env)] = [r EXCEPT !.rob.H = Append(@, h), !.rob.jt = Append(@, t), !.rob.P = Append(@, o),
                                                              !.names = IF @ = <<>> THEN <<>> ELSE << Append(@[1], GivenNames[n+1]) >>]]
                 /\ q' = Append(q, x)
Next == AddRobot \/ AddJoint
Spec == Init /\ [][Next]_vars

js == EnvJoints(env)
Names(s) == { s[i].n : i \in 1..Len(s) }
Tree == /\ Cardinality({ EnvLinks(env)[i] : i \in 1..Len(EnvLinks(env)) }) = Len(js) + 1
        /\ Len(EnvLinks(env)) = Len(js) + 1
        /\ Cardinality(Names(js)) = Len(js)
        /\ \A i \in 1..Len(js) : js[i].ch = EnvLinks(env)[i+1] /\ \E k \in 1..i : js[i].pa = EnvLinks(env)[k]
Start(i) == IF i = 1 THEN 0 ELSE SgN(env[1].rob)
QOf(i) == SubSeq(q, Start(i) + 1, Start(i) + SgN(env[i].rob))
Poses == \A i \in 1..Len(env) : LET r == env[i] ls == SgLinks(r.rob) IN
   /\ WalkPose(js, EnvTip(r), q) = Fwd(r.rob, QOf(i))
   /\ \A k \in 1..Len(ls) : LET lr == LinkRob(r.rob, k) IN
        /\ WalkPose(js, Pre(r.name, ls[k]), q) = Fwd(lr, SubSeq(QOf(i), 1, Len(lr.jt)))
        /\ \A m \in {1, SgN(r.rob), Len(ls)} : TMul(RelPose(js, Pre(r.name, ls[k]), Pre(r.name, ls[m]), q), RelPose(js, Pre(r.name, ls[m]), Pre(r.name, ls[k]), q)) = TId
   \* alone the robot moves as it does in company
   /\ WalkPose(EnvJoints(<<r>>), EnvTip(r), QOf(i)) = WalkPose(js, EnvTip(r), q)
Laws == (\A i \in 1..Len(env) : SgN(env[i].rob) > 0) => Tree /\ Poses
Hash == LET RobH(r) == LET h[i \in 0..SgN(r.rob)] == IF i = 0 THEN Len(r.rob.base) + 2*Len(r.rob.flange) + 4*Len(r.rob.tool) + 8*Len(r.names)
                                                   ELSE 5*h[i-1] + 3*r.rob.jt[i] + r.rob.H[i][1] + 2*r.rob.H[i][2] + r.rob.P[i+1][1] + q[i] IN h[SgN(r.rob)]
        IN IF env = <<>> THEN 0 ELSE RobH(env[1]) + 7 * (IF Len(env) = 2 THEN RobH(env[2]) ELSE 3)
Export == (env # <<>> /\ (\A i \in 1..Len(env) : SgN(env[i].rob) > 0) /\ Hash % Rate = 0) => Emit([env |-> env, q |-> q])
=============================================================================
