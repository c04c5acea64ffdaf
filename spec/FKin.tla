-------------------------------- MODULE FKin --------------------------------
(* Serial-chain kinematics in fixed point: the arithmetic in which traces   *)
(* recorded from the implementation are judged.                             *)
EXTENDS Fix, FiniteSets, TLC
INSTANCE Arms WITH One <- FOne, Mul <- FMul, Sin <- FSin, Cos <- FCos, Quarter <- FHalfPi

(* ---- verdict vocabulary: a judge returns the set of clauses broken ----- *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
IsOk(r) == r.k = "ok"
IsExc(r) == r.k = "exc"
\* judge(r.v) if the call returned a well-formed value, else the reason
WhenOk(r, V(_)) == IF r.k = "ok" THEN V(r.v)
                   ELSE IF r.k = "exc" THEN {"raised instead of answering"}
                   ELSE {"answer is malformed or not finite"}
Refused(r) == IF r.k = "exc" THEN {} ELSE {"answered instead of refusing"}

(* ---- closeness ---------------------------------------------------------- *)
Tol  == 300                     \* 3e-6, the working tolerance
RotBound == 110000000           \* entries of a rotation are at most 1 (slack .1)

NearV(a, b, t) == /\ FNear(a[1],b[1],t) /\ FNear(a[2],b[2],t) /\ FNear(a[3],b[3],t)
NearM(A, B, t) == \A i \in 1..9 : FNear(A[i], B[i], t)
NearQ(a, b, t) == \A i \in 1..4 : FNear(a[i], b[i], t)
NegQ(q) == <<-q[1], -q[2], -q[3], -q[4]>>
SameRotQ(a, b, t) == NearQ(a, b, t) \/ NearQ(a, NegQ(b), t)
NearT(A, B, t) == NearM(A.R, B.R, t) /\ NearV(A.p, B.p, t)
UnitV(k, t) == FBounded(k, RotBound) /\ FNear(NormSq(k), FOne, t)
UnitQ(q, t) == FBounded(q, RotBound) /\ FNear(QNormSq(q), FOne, t)
IsRotation(R, t) == /\ FBounded(R, RotBound)
                    /\ NearM(MMul(R, MTrans(R)), I3, t)
                    /\ FNear(Det(R), FOne, t)
SumSeq(s) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE S(i-1) + s[i]
             IN S(Len(s))
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
