------------------------------- MODULE TurnSpec -------------------------------
(***************************************************************************)
(* Whole-turn arithmetic of joint angles within limits, over any unit:     *)
(* Turn is the length of a full turn (8 in the exact model, 2*pi in fixed  *)
(* point for traces).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Turn
TAbs(a) == IF a < 0 THEN -a ELSE a
\* fewest / most turns that may be added to x without leaving [lo, up]
KLo(x, lo) == -((x - lo) \div Turn)
KUp(x, up) == (up - x) \div Turn
Fits(x, lo, up) == KLo(x, lo) <= KUp(x, up)
\* every value equal to x up to whole turns inside [lo, up]
Reach(x, lo, up) == { x + k*Turn : k \in KLo(x, lo)..KUp(x, up) }
\* those closest to last
Nearest(x, lo, up, last) == LET S == Reach(x, lo, up) IN { y \in S : \A z \in S : TAbs(y - last) <= TAbs(z - last) }
\* the same in closed form: round to the nearest turn, then stay within the limits
Clamp(k, a, b) == IF k < a THEN a ELSE IF k > b THEN b ELSE k
NearestK(x, lo, up, last) == Clamp((last - x + Turn \div 2) \div Turn, KLo(x, lo), KUp(x, up))

\* full-turn shifts of a whole configuration; sliding joints never shift
RECURSIVE Shifts(_, _, _, _)
Shifts(q, lo, up, rot) ==
  IF q = <<>> THEN {<<>>}
  ELSE LET n == Len(q)
           H == IF rot[n] THEN Reach(q[n], lo[n], up[n]) ELSE {q[n]}
           P == Shifts(SubSeq(q, 1, n-1), SubSeq(lo, 1, n-1), SubSeq(up, 1, n-1), SubSeq(rot, 1, n-1))
       IN { Append(p, h) : p \in P, h \in H }
Equivalents(q, lo, up, rot) == Shifts(q, lo, up, rot) \ {q}
=============================================================================
