---------------------------------- MODULE Tf ----------------------------------
(***************************************************************************)
(* The transform buffer behind the TF listener (C25).  The buffer is the   *)
(* sequence of updates it received: frame f was in frame pa at time t with *)
(* pose T.  A sample holds until the next one; time 0 asks for the latest. *)
(*   update   [f, pa, t, T]                                                *)
(***************************************************************************)
EXTENDS Kin, FiniteSets
TfKnown(log) == { log[i].f : i \in 1..Len(log) } \cup { log[i].pa : i \in 1..Len(log) }
\* number of the sample of f that holds at time t; 0: f has no samples at all; -1: none that early
TfSample(log, f, t) ==
  LET all == { i \in 1..Len(log) : log[i].f = f }
      old == { i \in all : t = 0 \/ log[i].t <= t }
  IN IF all = {} THEN 0 ELSE IF old = {} THEN -1
     ELSE CHOOSE i \in old : \A k \in old : log[k].t < log[i].t \/ (log[k].t = log[i].t /\ k <= i)
\* [root, T]: the pose of f in the root of its tree; root "!" if a sample is missing
RECURSIVE TfUp(_, _, _)
TfUp(log, f, t) ==
  LET i == TfSample(log, f, t) IN
  IF i = 0 THEN [root |-> f, T |-> TId]
  ELSE IF i = -1 THEN [root |-> "!", T |-> TId]
  ELSE LET u == TfUp(log, log[i].pa, t) IN [root |-> u.root, T |-> TMul(u.T, log[i].T)]
(* query: [to, tt, from, ft, via]: pose of frame "from" at time ft in frame *)
(* "to" at time tt, the frame "via" taken as fixed; via "-" when there is   *)
(* only one time                                                            *)
TfOutcome(log, x) ==
  LET ks == TfKnown(log)  via == IF x.via = "-" THEN x.to ELSE x.via
      a == TfUp(log, x.to, x.tt)  va == TfUp(log, via, x.tt)  vb == TfUp(log, via, x.ft)  b == TfUp(log, x.from, x.ft)
  IN IF ~({x.to, x.from, via} \subseteq ks) THEN "LookupException"
     ELSE IF "!" \in {a.root, va.root, vb.root, b.root} THEN "ExtrapolationException"
     ELSE IF a.root # va.root \/ b.root # vb.root THEN "ConnectivityException" ELSE "ok"
TfLookup(log, x) ==
  LET via == IF x.via = "-" THEN x.to ELSE x.via
  IN TMul(TMul(TInv(TfUp(log, x.to, x.tt).T), TfUp(log, via, x.tt).T), TMul(TInv(TfUp(log, via, x.ft).T), TfUp(log, x.from, x.ft).T))
(* waiting: updates under way arrive one after the other, each after its    *)
(* own delay, until the query can be answered or the time is used up        *)
RECURSIVE TfArrive(_, _, _, _)
TfArrive(log, pend, x, left) ==
  IF TfOutcome(log, x) = "ok" \/ pend = <<>> \/ pend[1].d > left THEN [log |-> log, pend |-> pend]
  ELSE TfArrive(Append(log, pend[1].u), Tail(pend), x, left - pend[1].d)
=============================================================================
