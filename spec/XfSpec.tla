-------------------------------- MODULE XfSpec --------------------------------
(***************************************************************************)
(* Transforms as values (C04).  The store is a bank of registers holding   *)
(* transforms with the names of the frames they relate; every recorded     *)
(* call logs the whole bank after it, so that a step may change the        *)
(* destination register only.                                              *)
(***************************************************************************)
EXTENDS RotSpec

XNew(e) == [R |-> e.R, p |-> e.p, pa |-> e.pa, ch |-> e.ch]
XMul(A, B) == LET T == TMul(A, B) IN [R |-> T.R, p |-> T.p, pa |-> A.pa, ch |-> B.ch]
XInv(A) == LET T == TInv(A) IN [R |-> T.R, p |-> T.p, pa |-> A.ch, ch |-> A.pa]

NearX(a, b) == NearT(a, b, 100)
NamesEq(a, b) == a.pa = b.pa /\ a.ch = b.ch
MaxDiff(A, B) == LET m[i \in 0..9] == IF i = 0 THEN 0 ELSE FMax(m[i-1], FAbs(A.R[i] - B.R[i]))
                     n[i \in 0..3] == IF i = 0 THEN m[9] ELSE FMax(n[i-1], FAbs(A.p[i] - B.p[i]))
                 IN n[3]

\* the bank after the call, given the bank before; unchanged registers are exactly unchanged
XAssign(st, e, want) ==
  IF e.r.k # "ok" THEN [bad |-> {"raised instead of answering"}, st |-> st]
  ELSE LET b == e.r.v IN
    [ bad |-> Clause(\A i \in 1..Len(st) : i # e.d => b[i] = st[i], "an operand or unrelated transform was changed")
              \cup Clause(NearX(b[e.d], want), "result is not the motion the operation stands for")
              \cup Clause(NamesEq(b[e.d], want), "frame names of the result are wrong"),
      st |-> b ]
XObserve(st, e, cl) == [bad |-> cl, st |-> st]

XStep(st, e) ==
  CASE e.op = "x_init" /\ e.r.k # "ok" -> [bad |-> {"could not be constructed"}, st |-> <<>>]
    [] e.op = "x_init" -> [bad |-> Clause(\A i \in 1..Len(e.regs) : NearX(e.r.v[i], e.regs[i]) /\ NamesEq(e.r.v[i], e.regs[i]),
                                          "constructed transform does not hold the given values"), st |-> e.r.v]
    [] e.op = "x_mul" -> XAssign(st, e, XMul(st[e.a], st[e.b]))
    [] e.op = "x_inv" -> XAssign(st, e, XInv(st[e.a]))
    [] e.op = "x_id"  -> XAssign(st, e, [R |-> I3, p |-> Zero3, pa |-> "-", ch |-> "-"])
    \* one register is rewritten from outside; the others hold values of their own
    [] e.op = "x_poke" -> XAssign(st, e, [st[e.d] EXCEPT !.R = e.R, !.p = e.p])
    \* equality: agreement to rounding is equality, a clear difference is not
    [] e.op = "x_eq" -> XObserve(st, e, WhenOk(e.r, LAMBDA v :
          LET d == MaxDiff(st[e.a], st[e.b]) IN
          Clause(v.ne = ~v.eq /\ v.neq = ~v.eq, "inequality is not the negation of equality")
          \cup Clause(d <= 0 => v.eq, "equal transforms compare unequal")
          \cup Clause(d >= 3000 => ~v.eq, "different transforms compare equal")
          \cup Clause(v.bank = st, "an operand was changed")))
    [] e.op = "x_close" -> XObserve(st, e, WhenOk(e.r, LAMBDA v :
          LET d == MaxDiff(st[e.a], st[e.b]) IN
          Clause(d <= e.tol - 2 - e.tol \div 10 => v.c, "transforms within the tolerance are not close")
          \cup Clause(d >= e.tol + e.tol \div 10 + 6002 => ~v.c, "transforms beyond the tolerance are close")
          \cup Clause(v.bank = st, "an operand was changed")))
XOps == {"x_init", "x_mul", "x_inv", "x_id", "x_poke", "x_eq", "x_close"}
=============================================================================
