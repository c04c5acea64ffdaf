-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The trace file holds one session per line; a session *)
(* is a sequence of recorded calls of the implementation.  A behaviour of  *)
(* this module walks one session; every recorded call must be a step the   *)
(* specification allows.  Verdicts are total: a call that breaks clauses   *)
(* is reported as a REJECT line naming them, and validation goes on.       *)
(***************************************************************************)
EXTENDS TfSpec, Json, IOUtils
RobotS == INSTANCE RobotSpec

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, store, bad
vars == <<s, l, store, bad>>

Ev == Sessions[s].ev[l]

Judge(e) ==
  CASE e.op = "rot" -> J_rot(e)
    [] e.op = "R2rot" -> J_R2rot(e)
    [] e.op = "R2q" -> J_R2q(e)
    [] e.op = "q2R" -> J_q2R(e)
    [] e.op = "q2rot" -> J_q2rot(e)
    [] e.op = "rot2q" -> J_rot2q(e)
    [] e.op = "rpy2R" -> J_rpy2R(e)
    [] e.op = "R2rpy" -> J_R2rpy(e)
    [] e.op = "rchain" -> J_rchain(e)
    [] e.op = "properR" -> J_properR(e)
    [] e.op = "hat" -> J_hat(e)
    [] e.op = "hatmul" -> J_hatmul(e)
    [] e.op = "invhat" -> J_invhat(e)
    [] e.op = "quatproduct" -> J_quatproduct(e)
    [] e.op = "quatcompose" -> J_quatcompose(e)
    [] e.op = "quatcomplement" -> J_quatcomplement(e)
    [] e.op = "quatjacobian" -> J_quatjacobian(e)
    [] e.op = "screw" -> J_screw(e)
    [] e.op = "screwwrench" -> J_screwwrench(e)
    [] e.op = "screwsum" -> J_screwsum(e)
    [] e.op = "slerp" -> J_slerp(e)
    [] e.op = "robot" -> RobotS!RobotVerdict(e.c, e.r)
    [] e.op = "fwd" -> J_fwd(e)
    [] e.op = "jac" -> J_jac(e)
    [] e.op = "aux" -> J_aux(e)
    [] e.op = "sub0" -> J_sub0(e)
    [] e.op = "sub1" -> J_sub1(e)
    [] e.op = "sub2" -> J_sub2(e)
    [] e.op = "sub3" -> J_sub3(e)
    [] e.op = "sub4" -> J_sub4(e)
    [] e.op = "iksound" -> J_iksound(e)
    [] e.op = "ikcomplete" -> J_ikcomplete(e)
    [] e.op = "iknear" -> J_iknear(e)
    [] e.op = "iktrack" -> J_iktrack(e)
    [] e.op = "equiv" -> J_equiv(e)
    [] e.op = "itik" -> J_itik(e)
    [] e.op = "urdf" -> J_urdf(e)
    [] e.op = "urdffwd" -> J_urdffwd(e)
    [] e.op = "rr" -> J_rr(e)
    [] e.op = "iso" -> J_iso(e)
    [] e.op = "sg" -> J_sg(e)
    [] e.op = "envg" -> J_envg(e)
    [] e.op = "lj" -> J_lj(e)
    [] e.op = "kinfo" -> J_kinfo(e)
    [] e.op = "plugin" -> J_plugin(e)
    [] e.op = "tfwd" -> J_tfwd(e)
    [] e.op = "tjac" -> J_tjac(e)
    [] e.op = "tik" -> J_tik(e)
    [] e.op = "tred" -> J_tred(e)
    [] e.op = "par" -> J_par(e)
    [] e.op = "msg" -> J_msg(e)
    [] OTHER -> {"HARNESS: unknown operation"}

\* calls that depend on or change the state of the session: [bad, st]
Stateful(op) == op \in XOps \cup SOps \cup TOps
Advance(st, e) == IF e.op \in XOps THEN XStep(st, e) ELSE IF e.op \in TOps THEN TStep(st, e) ELSE SStep(st, e)

Init == /\ s \in 1..Len(Sessions)
        /\ l = 1
        /\ store = <<>>
        /\ bad = 0

Report(cl) == IF cl = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(s) \o " " \o ToString(l) \o " " \o ToJson(cl))

\* after a call that should have answered and did not, the state is unknown: the rest of the
\* session is walked without judging it
Unknown == -1
Walk(e) == IF ~Stateful(e.op) THEN [bad |-> Judge(e), st |-> store, lost |-> FALSE]
           ELSE IF bad = Unknown THEN [bad |-> {}, st |-> store, lost |-> TRUE]
           ELSE LET a == Advance(store, e) IN
                [bad |-> a.bad, st |-> a.st, lost |-> "r" \in DOMAIN e /\ a.bad # {} /\ e.r.k # "ok"]

Step == /\ l <= Len(Sessions[s].ev)
        /\ LET a == Walk(Ev)
           IN /\ Report(a.bad)
              /\ bad' = IF a.lost THEN Unknown ELSE bad + (IF a.bad = {} THEN 0 ELSE 1)
              /\ store' = a.st
        /\ l' = l + 1
        /\ s' = s
Next == Step
Spec == Init /\ [][Next]_vars

\* every recorded call was consumed: one state per call plus one per session
Total == SumSeq([i \in 1..Len(Sessions) |-> Len(Sessions[i].ev) + 1])
AllConsumed == TLCGet("stats").distinct = Total
=============================================================================
