-------------------------------- MODULE RrSpec --------------------------------
(* Judging robots loaded from Robot Raconteur robot information. *)
EXTENDS UrdfSpec, RrInfo
PoseT(x) == [R |-> Q2R(x.q), p |-> x.p]
NearOptT(got, want) == Len(got) = Len(want) /\ (want # <<>> => NearT(got[1], PoseT(want[1]), Tol))
NearVecs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearV(a[i], b[i], 2)
\* the tool that ends up mounted: the separately loaded one, else the chain's current tool
RrTool(e, ch) == IF e.tool2 # <<>> THEN << e.tool2[1].tcp >>
                 ELSE IF ch.tool # <<>> /\ ch.tool[1].tcp # <<>> THEN ch.tool[1].tcp ELSE <<>>
RrTip(e, ch) == IF e.tool2 # <<>> THEN e.tool2[1].dev
                ELSE IF ch.tool # <<>> /\ ch.tool[1].tcp # <<>> /\ ch.tool[1].dev # "-" THEN ch.tool[1].dev ELSE ch.flange
J_rr(e) ==
  LET o == RrOutcome(e.d, e.chain) IN
  IF o = "refuse" THEN Refused(e.r)
  ELSE IF o = "either" /\ e.r.k = "exc" THEN {}
  ELSE WhenOk(e.r, LAMBDA v :
    LET ch == e.d.chains[e.chain + 1]  js == RrJoints(e.d, e.chain)  n == Len(js)
        vals(f(_)) == [i \in 1..n |-> f(js[i].lim[1])]
    IN Clause(v.same, "the description was modified")
       \cup Clause(NearVecs(v.H, ch.H), "axes are not those of the chain")
       \cup Clause(NearVecs(v.P, ch.P), "offsets are not those of the chain")
       \cup Clause(v.jt = [i \in 1..n |-> IF js[i].type = "revolute" THEN 0 ELSE 1], "joint types are not those of the joints the chain refers to")
       \cup Clause(v.names = [i \in 1..n |-> js[i].name], "joint names are not those of the joints the chain refers to")
       \cup Clause(/\ FNearSeq(v.lo, vals(LAMBDA x : x.lower), 2) /\ FNearSeq(v.up, vals(LAMBDA x : x.upper), 2)
                   /\ FNearSeq(v.vel, vals(LAMBDA x : x.velocity), 2) /\ FNearSeq(v.acc, vals(LAMBDA x : x.acceleration), 2),
                   "limits are not those of the joints the chain refers to")
       \cup Clause(v.root = ch.root, "wrong root link name") \cup Clause(v.tip = RrTip(e, ch), "wrong tip name")
       \cup Clause(NearOptT(v.flange, << ch.pose >>), "wrong flange pose")
       \cup Clause(NearOptT(v.base, e.d.origin), "wrong base origin")
       \cup Clause(NearOptT(v.tool, RrTool(e, ch)), "wrong tool frame"))
=============================================================================
