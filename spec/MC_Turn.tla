------------------------------- MODULE MC_Turn -------------------------------
(***************************************************************************)
(* Whole-turn laws, decided exhaustively on an eighth-of-a-turn lattice.   *)
(* Mode "near":  one joint: value, limits, previous value.                 *)
(* Mode "equiv": a robot is grown joint by joint (rotary or sliding), the  *)
(* set of equivalent configurations is checked to be an equivalence class. *)
(***************************************************************************)
EXTENDS TurnSpec, TLC, Json
CONSTANTS Mode, N, Rate
VARIABLES q, lo, up, rot, last
vars == <<q, lo, up, rot, last>>
Emit(c) == PrintT("CASE " \o ToJson(c))

Los == IF Mode = "near" THEN {-12, -9, -8, -4, -1, 0, 3} ELSE {-12, -9, -8, 0}
Widths == IF Mode = "near" THEN {1, 3, 7, 8, 9, 16, 20, 24} ELSE {3, 8, 16, 19}
Vals(l, u) == IF Mode = "near" THEN l..u ELSE { x \in l..u : x \in {l, l+3, u, u-8, 0, 8} }
Lasts == IF Mode = "near" THEN (-8)..12 ELSE {0, 5}

Init == q = <<>> /\ lo = <<>> /\ up = <<>> /\ rot = <<>> /\ last = <<>>
Grow == /\ Len(q) < N
        /\ \E l \in Los, w \in Widths, y \in Lasts, t \in (IF Mode = "near" THEN {TRUE} ELSE BOOLEAN) :
             \E x \in Vals(l, l + w) :
               /\ l + w <= 14        \* the recorded angles must stay within fixed-point range
               /\ q' = Append(q, x) /\ lo' = Append(lo, l) /\ up' = Append(up, l + w)
               /\ rot' = Append(rot, t) /\ last' = Append(last, y)
Next == Grow
Spec == Init /\ [][Next]_vars

NearLaws == \A i \in 1..Len(q) :
   LET R == Reach(q[i], lo[i], up[i])  S == Nearest(q[i], lo[i], up[i], last[i])
       k == NearestK(q[i], lo[i], up[i], last[i])
   IN /\ q[i] \in R
      /\ S # {} /\ Cardinality(S) <= 2
      /\ (q[i] + k*Turn) \in S                           \* the closed form finds a nearest value
      /\ \A y \in R : lo[i] <= y /\ y <= up[i] /\ (y - q[i]) % Turn = 0
      /\ \A y \in lo[i]..up[i] : (y - q[i]) % Turn = 0 => y \in R
      /\ (lo[i] <= last[i] /\ last[i] <= up[i] /\ up[i] - lo[i] >= Turn) => \A y \in S : TAbs(y - last[i]) <= Turn
      /\ \A y \in R : TAbs(y - last[i]) < Turn \div 2 => S = {y}  \* a value within half a turn is the nearest one
Prod(f, n) == LET p[i \in 0..n] == IF i = 0 THEN 1 ELSE p[i-1] * f[i] IN p[n]
EquivLaws ==
   LET C == Shifts(q, lo, up, rot)  n == Len(q) IN
   /\ q \in C
   /\ Cardinality(C) = Prod([i \in 1..n |-> IF rot[i] THEN Cardinality(Reach(q[i], lo[i], up[i])) ELSE 1], n)
   /\ \A c \in C : Shifts(c, lo, up, rot) = C             \* an equivalence class
   /\ \A c \in C : \A i \in 1..n : /\ lo[i] <= c[i] /\ c[i] <= up[i]
                                   /\ ~rot[i] => c[i] = q[i]
                                   /\ (c[i] - q[i]) % Turn = 0
   /\ q \notin Equivalents(q, lo, up, rot)
Laws == IF Mode = "near" THEN NearLaws ELSE EquivLaws

Hash == LET h[i \in 0..Len(q)] == IF i = 0 THEN 7 ELSE h[i-1]*13 + q[i]*5 + lo[i]*3 + up[i]*11 + last[i]*17 + (IF rot[i] THEN 1 ELSE 0) IN h[Len(q)] % Rate
Export == (q # <<>> /\ Len(q) = N /\ Hash = 0) => Emit([q |-> q, lo |-> lo, up |-> up, rot |-> rot, last |-> last])
=============================================================================
