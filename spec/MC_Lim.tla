-------------------------------- MODULE MC_Lim --------------------------------
(***************************************************************************)
(* The limit gate, exhaustively: a robot is grown joint by joint, each     *)
(* joint with its limits and its value below, at the lower, between, at    *)
(* the upper or above them; the robot has both, one or no list of limits   *)
(* and the override is on or off.  Only the place of the value in its      *)
(* interval matters, so that a few integers stand for all reals.           *)
(***************************************************************************)
EXTENDS LimSpec, TLC, Json
CONSTANTS N, Rate
VARIABLES lo, up, q, jt, has, ign
vars == <<lo, up, q, jt, has, ign>>
Has == {"both", "lower", "upper", "none"}
Init == /\ lo = <<>> /\ up = <<>> /\ q = <<>> /\ jt = <<>>
        /\ has \in Has /\ ign \in BOOLEAN
Grow(l, w, d, t) == /\ lo' = Append(lo, l) /\ up' = Append(up, l + w) /\ q' = Append(q, d) /\ jt' = Append(jt, t)
                    /\ UNCHANGED <<has, ign>>
Next == /\ Len(q) < N
        /\ \E l \in {-4, -2, 0, 2}, w \in {0, 2, 4}, t \in {0, 1} : \E d \in (l-1)..(l+w+1) :
             Grow(l, w, d, t)
Spec == Init /\ [][Next]_vars

L == IF has \in {"both", "lower"} THEN <<lo>> ELSE <<>>
U == IF has \in {"both", "upper"} THEN <<up>> ELSE <<>>
Ans(x) == Answered(L, U, x, ign)
n == Len(q)
\* the gate is the conjunction of one gate per joint and side
Pointwise == (has = "both" /\ ~ign) => (Ans(q) <=> ~\E i \in 1..n : q[i] < lo[i] \/ q[i] > up[i])
\* it is never there without both lists, or with the override
Open == (has # "both" \/ ign) => Ans(q)
\* the limits themselves are inside; moving one joint of an answered configuration beyond either is refused
Edges == (has = "both" /\ ~ign) => /\ Ans(lo) /\ Ans(up)
                                  /\ \A i \in 1..n : /\ ~Ans([q EXCEPT ![i] = lo[i] - 1])
                                                     /\ ~Ans([q EXCEPT ![i] = up[i] + 1])
\* wider limits answer at least as much; the answer does not depend on the order of the joints
Wider == Ans(q) => Answered(IF L = <<>> THEN L ELSE <<[i \in 1..n |-> lo[i] - 1]>>, U, q, ign)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Symmetric == Ans(q) <=> Answered(IF L = <<>> THEN L ELSE <<Rev(lo)>>, IF U = <<>> THEN U ELSE <<Rev(up)>>, Rev(q), ign)
Laws == Pointwise /\ Open /\ Edges /\ Wider /\ Symmetric

Hash == LET RECURSIVE S(_)
            S(i) == IF i = 0 THEN 3 ELSE (7 * S(i-1) + 5 * (lo[i] + 4) + 11 * up[i] + 3 * q[i] + jt[i]) % 10007
        IN S(n)
Export == (n = 1 \/ Hash % Rate = 0) => PrintT("CASE " \o ToJson([lo |-> lo, up |-> up, q |-> q, jt |-> jt, has |-> has, ign |-> ign]))
=============================================================================
