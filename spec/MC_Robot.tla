------------------------------- MODULE MC_Robot -------------------------------
(* Constructor arguments, by kind: the default description with up to K     *)
(* deviations, and every combination of present and absent options (C05).   *)
EXTENDS RobotSpec, Sequences, TLC, Json
CONSTANT K
VARIABLES n, c, dev
vars == <<n, c, dev>>
Init == \/ n \in 0..3 /\ c = Default /\ dev = 0
        \/ /\ n = 2 /\ dev = K
           /\ c \in { [Default EXCEPT !.lo = x[1], !.up = x[2], !.vel = x[3], !.acc = x[4], !.M = x[5], !.names = x[6], !.tool = x[7]] :
                      x \in {"none","ok"} \X {"none","ok"} \X {"none","ok"} \X {"none","ok"} \X {"none","ok"} \X {"none","ok"} \X {"none","both","R","p"} }
\* kinds that need at least one joint to exist
NeedsJoint(f, v) == n = 0 => ~(v = "short" \/ f = "hnorm" \/ (f = "jt" /\ v \in {"four","minus"}))
Set(f, v) == /\ dev < K /\ c[f] = Default[f] /\ v # Default[f] /\ NeedsJoint(f, v)
             /\ c' = [c EXCEPT ![f] = v] /\ dev' = dev + 1 /\ n' = n
Next == \E f \in DOMAIN Fields : \E v \in Fields[f] : Set(f, v)
Spec == Init /\ [][Next]_vars
\* sanity of the specification itself: limits are reported in pairs, tool frames in pairs
Pairs == Accept(c) => (Attrs(c).lo = Attrs(c).up /\ Attrs(c).Rt = Attrs(c).pt)
\* one-sided limits never make a description inconsistent
OneSided == (Accept([c EXCEPT !.lo = "none"]) /\ ~Given(c.up)) => Accept(c)
Export == PrintT("CASE " \o ToJson([n |-> n, c |-> c]))
View == <<n, c>>
=============================================================================
