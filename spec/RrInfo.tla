-------------------------------- MODULE RrInfo --------------------------------
(***************************************************************************)
(* Robot Raconteur robot information (C20): when a description is          *)
(* consistent for a chain and which joints the chain's robot has.          *)
(*   d.chains[c].jn   joint numbers, counted from 0                        *)
(*   d.chains[c].H, .P   sequences                                         *)
(*   d.joints[j]      [type, lim (<<>> when missing), name]                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Supported == {"revolute", "prismatic"}
Increasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
InRange(s, n) == \A i \in 1..Len(s) : 0 <= s[i] /\ s[i] < n
RrJoint(d, c, i) == d.joints[d.chains[c].jn[i] + 1]
\* chain number k counts from 0
RrOutcome(d, k) ==
  IF ~(0 <= k /\ k < Len(d.chains)) THEN "refuse"
  ELSE LET c == k + 1  ch == d.chains[c]  n == Len(ch.jn) IN
       IF ~Increasing(ch.jn) \/ ~InRange(ch.jn, Len(d.joints)) THEN "refuse"
       ELSE IF Len(ch.H) # n \/ Len(ch.P) # n + 1 THEN "refuse"
       ELSE IF \E i \in 1..n : RrJoint(d, c, i).type \notin Supported \/ RrJoint(d, c, i).lim = <<>> THEN "refuse"
       \* a faulty joint that the chain does not refer to may or may not be noticed
       ELSE IF \E j \in 1..Len(d.joints) : d.joints[j].type \notin Supported \/ d.joints[j].lim = <<>> THEN "either"
       ELSE "robot"
RrJoints(d, k) == [i \in 1..Len(d.chains[k+1].jn) |-> RrJoint(d, k+1, i)]
=============================================================================
