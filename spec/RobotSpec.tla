------------------------------ MODULE RobotSpec ------------------------------
(***************************************************************************)
(* When a robot description is consistent, and what an accepted robot      *)
(* reports (C05).  A case describes the arguments by their kind.           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
Per == {"none", "ok", "short", "long"}
Fields == [ hrows |-> {"ok", "two", "four"}, hnorm |-> {"ok", "long", "short", "zero"}, pcols |-> {"ok", "short", "long"}, prows |-> {"ok", "two"},
            jt |-> {"ok", "four", "minus", "short", "long"},
            lo |-> Per, up |-> Per, vel |-> Per, acc |-> Per,
            M |-> Per \cup {"shape"}, tool |-> {"none", "both", "R", "p"}, names |-> Per ]
Default == [ hrows |-> "ok", hnorm |-> "ok", pcols |-> "ok", prows |-> "ok", jt |-> "ok", lo |-> "none", up |-> "none", vel |-> "none", acc |-> "none",
             M |-> "none", tool |-> "none", names |-> "none" ]
Given(x) == x # "none"
Fine(x) == x \in {"none", "ok"}
Accept(c) == /\ c.hrows = "ok" /\ c.prows = "ok" /\ c.hnorm = "ok" /\ c.pcols = "ok" /\ c.jt = "ok"
             /\ (Given(c.lo) /\ Given(c.up)) => (Fine(c.lo) /\ Fine(c.up))
             /\ Fine(c.vel) /\ Fine(c.acc) /\ Fine(c.M) /\ Fine(c.names)
\* what an accepted robot must report: "same" value as given, or nothing
Report(b) == IF b THEN "same" ELSE "none"
Attrs(c) == [ H |-> "same", P |-> "same", jt |-> "same",
              lo |-> Report(Given(c.lo) /\ Given(c.up)), up |-> Report(Given(c.lo) /\ Given(c.up)),
              vel |-> Report(Given(c.vel)), acc |-> Report(Given(c.acc)), M |-> Report(Given(c.M)),
              Rt |-> Report(c.tool = "both"), pt |-> Report(c.tool = "both"),
              names |-> Report(Given(c.names)), root |-> "same", tip |-> "same", flange |-> "same", base |-> "same" ]
RobotVerdict(c, r) ==
  IF ~Accept(c) THEN (IF r.k = "exc" THEN {} ELSE {"inconsistent description accepted"})
  ELSE IF r.k # "ok" THEN {"consistent description refused"}
  ELSE IF r.v = Attrs(c) THEN {} ELSE {"accepted robot does not report the values it was given"}
=============================================================================
