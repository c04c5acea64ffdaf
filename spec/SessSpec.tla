------------------------------- MODULE SessSpec -------------------------------
(***************************************************************************)
(* Sessions of calls (C17).  The state holds, for every robot, its         *)
(* description with the currently mounted frames, the fingerprint of every *)
(* object of the session, and the answers given so far.  Queries change no *)
(* object; setting a frame changes that robot only; the same query asked   *)
(* again under the same frames gets the same answer.                       *)
(***************************************************************************)
EXTENDS IkSpec

SessInit(e) == [rob |-> e.robs, cfg |-> [x \in DOMAIN e.robs |-> "0"], fp |-> e.post, memo |-> <<>>]

SameAnswer(a, b) == /\ a.k = b.k
                    /\ a.k = "ok" => (a.v.s = b.v.s /\ FNearSeq(a.v.f, b.v.f, 2*Tol))
                    /\ a.k = "exc" => a.t = b.t
\* earlier answers to the same question
Earlier(st, e) == { i \in 1..Len(st.memo) : st.memo[i].key = e.key /\ st.memo[i].cfg = (IF e.robot = "-" THEN "-" ELSE st.cfg[e.robot]) }
ChangedOnly(st, e, allowed) == \A x \in DOMAIN st.fp : x \in allowed \/ e.post[x] = st.fp[x]
FrameClause(st, e, allowed) ==
  LET ch == { x \in DOMAIN st.fp : x \notin allowed /\ e.post[x] # st.fp[x] } IN
  Clause(ch = {}, "the call changed " \o (IF ch = {} THEN "" ELSE (CHOOSE x \in ch : TRUE)))

\* answers that the description itself determines
Determined(st, e) ==
  CASE e.what = "fwd" -> WhenOk(e.r, LAMBDA v : LET T == Fwd(st.rob[e.robot], e.q) IN
                           Clause(Len(v.f) = 12 /\ FNearSeq(v.f, T.R \o T.p, 3*Tol), "the answer does not reflect the robot as it is now"))
    [] e.what = "jac" -> WhenOk(e.r, LAMBDA v : LET cs == JCols(st.rob[e.robot], e.q) m == Len(cs) IN
                           Clause(Len(v.f) = 6*m /\ FBounded(v.f, 10*FOne) /\ \A k \in 1..m : NearCol(v.f, m, k, cs[k]), "the answer does not reflect the robot as it is now"))
    [] e.what \in {"apply", "unapply"} -> WhenOk(e.r, LAMBDA v : LET T == IF e.what = "apply" THEN Apply(st.rob[e.robot], e.T) ELSE Unapply(st.rob[e.robot], e.T) IN
                           Clause(Len(v.f) = 12 /\ FNearSeq(v.f, T.R \o T.p, 3*Tol), "the answer does not reflect the robot as it is now"))
    [] e.what = "ik" -> WhenOk(e.r, LAMBDA v : Clause(\A i \in 1..(Len(v.f) \div 6) :
                           NearT(Fwd(st.rob[e.robot], SubSeq(v.f, 6*i-5, 6*i)), e.T, 3*PoseTol), "the answer does not reflect the robot as it is now"))
    [] OTHER -> {}

SStep(st, e) ==
  CASE e.op = "s_init" -> [bad |-> {}, st |-> SessInit(e)]
    [] e.op = "s_set" -> [bad |-> FrameClause(st, e, {e.robot}),
                          st |-> [st EXCEPT !.rob[e.robot] = e.now, !.cfg[e.robot] = e.ver, !.fp = e.post]]
    \* writing into a frame is seen by the robot it belongs to, and by those that share it
    [] e.op = "s_poke" -> [bad |-> FrameClause(st, e, {e.allowed[i] : i \in 1..Len(e.allowed)})
                                   \cup Clause(e.now[e.robot] = e.want[e.robot], "HARNESS: the frame was not written")
                                   \cup Clause(\A x \in DOMAIN e.now : e.now[x] \in {st.rob[x], e.want[x]}, "a robot shows a frame it never had"),
                           st |-> [st EXCEPT !.rob = e.now, !.cfg = e.ver, !.fp = e.post]]
    [] e.op = "s_call" ->
         [bad |-> FrameClause(st, e, {})
                  \cup Clause(\A i \in Earlier(st, e) : SameAnswer(st.memo[i].r, e.r), "the same question got a different answer")
                  \cup Clause(\A i \in 1..Len(e.twin) : SameAnswer(e.twin[i], e.r), "a robot made anew with the same description answers differently")
                  \cup Determined(st, e),
          st |-> [st EXCEPT !.fp = e.post, !.memo = Append(@, [key |-> e.key, cfg |-> IF e.robot = "-" THEN "-" ELSE st.cfg[e.robot], r |-> e.r])]]
SOps == {"s_init", "s_set", "s_poke", "s_call"}
=============================================================================
