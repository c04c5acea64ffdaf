-------------------------------- MODULE TfSpec --------------------------------
(* Judging sessions of TF listeners.  st.log and st.pend: per listener, the   *)
(* buffer and the updates under way, advanced by the same actions as the      *)
(* model's.  e.x: query; e.seen: the calls the buffer received, as texts.     *)
EXTENDS MsgSpec
TfEmpty(e) == [log |-> [i \in 1..e.n |-> <<>>], pend |-> [i \in 1..e.n |-> <<>>]]
TfAnswer(st, e, V(_)) ==
  LET o == TfOutcome(st.log[e.i], e.x) IN
  IF o = "ok" THEN WhenOk(e.r, V)
  ELSE IF e.r.k = "exc" THEN Clause(e.r.t = o, "the refusal of the buffer is not passed on")
  ELSE {"answered although the buffer has no such transform"}
Forwarded(e) == Clause(\E k \in 1..Len(e.seen) : e.seen[k] = e.want, "not forwarded to the buffer with the arguments given")
TStep(st, e) ==
  CASE e.op = "tf_init" -> [bad |-> Clause(e.r.k = "ok", "could not be constructed")
                                    \cup Clause(e.r.k = "ok" => e.r.v = e.given, "construction arguments are not passed on"), st |-> TfEmpty(e)]
    \* events of the environment
    [] e.op = "tf_set"   -> [bad |-> {}, st |-> [st EXCEPT !.log[e.i] = Append(@, e.u)]]
    [] e.op = "tf_pend"  -> [bad |-> {}, st |-> [st EXCEPT !.pend[e.i] = Append(@, [d |-> e.d, u |-> e.u])]]
    \* calls
    [] e.op = "tf_clear" -> [bad |-> WhenOk(e.r, LAMBDA v : {}) \cup Forwarded(e), st |-> [st EXCEPT !.log[e.i] = <<>>]]
    [] e.op = "tf_can"   -> [bad |-> WhenOk(e.r, LAMBDA v : Clause(v = (TfOutcome(st.log[e.i], e.x) = "ok"), "wrong answer to an availability query")) \cup Forwarded(e), st |-> st]
    [] e.op = "tf_wait"  -> LET a == TfArrive(st.log[e.i], st.pend[e.i], e.x, e.timeout) IN
                            [bad |-> (IF TfOutcome(a.log, e.x) = "ok" THEN WhenOk(e.r, LAMBDA v : {})
                                      ELSE IF e.r.k = "exc" THEN Clause(e.r.t = "TransformException", "the end of the time is not passed on") ELSE {"came back although the transform never arrived"})
                                     \cup Forwarded(e),
                             st |-> [st EXCEPT !.log[e.i] = a.log, !.pend[e.i] = a.pend]]
    [] e.op = "tf_look"  -> [bad |-> TfAnswer(st, e, LAMBDA v :
                                Clause(NearT(v, TfLookup(st.log[e.i], e.x), 3*Tol), "not the pose of the source frame in the target frame")
                                \cup Clause(v.pa = e.x.to, "not labelled with the target frame as parent")
                                \cup Clause(v.ch = e.x.from, "not labelled with the source frame as child")), st |-> st]
    \* a transform looked up earlier is read again
    [] e.op = "tf_again" -> [bad |-> Clause(e.was = e.now, "an earlier answer changed"), st |-> st]
TOps == {"tf_init", "tf_set", "tf_pend", "tf_clear", "tf_can", "tf_wait", "tf_look", "tf_again"}
=============================================================================
