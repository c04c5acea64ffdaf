-------------------------------- MODULE MC_Xf --------------------------------
(***************************************************************************)
(* Histories of compositions and inversions over three transforms of the   *)
(* lattice (C04).  Group laws are checked in every state; complete         *)
(* histories are exported and replayed into the implementation.            *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS Depth, Rate
VARIABLES regs, h
vars == <<regs, h>>
X(R, p, pa, ch) == [R |-> R, p |-> p, pa |-> pa, ch |-> ch]
Start == << X(Rot(Ez,1), <<1,0,0>>, "a", "b"), X(MMul(Rot(Ex,1),Rot(Ey,1)), <<0,2,1>>, "b", "c"), X(Rot(Ey,2), <<-1,1,0>>, "c", "-") >>
XMul(A, B) == LET T == TMul(A, B) IN X(T.R, T.p, A.pa, B.ch)
XInv(A) == LET T == TInv(A) IN X(T.R, T.p, A.ch, A.pa)
Init == regs = Start /\ h = <<>>
Mult(d, a, b) == regs' = [regs EXCEPT ![d] = XMul(regs[a], regs[b])] /\ h' = Append(h, <<"mul", d, a, b>>)
Invert(d, a)  == regs' = [regs EXCEPT ![d] = XInv(regs[a])] /\ h' = Append(h, <<"inv", d, a, a>>)
Next == /\ Len(h) < Depth
        /\ \/ \E d, a, b \in 1..3 : Mult(d, a, b)
           \/ \E d, a \in 1..3 : Invert(d, a)
Spec == Init /\ [][Next]_vars
IdX(f) == X(I3, Zero3, f, f)
Same(A, B) == A.R = B.R /\ A.p = B.p
Group == \A a, b \in 1..3 :
   /\ LIsRotation(regs[a].R)
   /\ XMul(regs[a], XInv(regs[a])) = IdX(regs[a].pa)
   /\ XInv(XInv(regs[a])) = regs[a]
   /\ XInv(XMul(regs[a], regs[b])) = XMul(XInv(regs[b]), XInv(regs[a]))
   /\ \A c \in 1..3 : XMul(XMul(regs[a], regs[b]), regs[c]) = XMul(regs[a], XMul(regs[b], regs[c]))
   /\ TApply(XMul(regs[a], regs[b]), <<1,2,3>>) = TApply(regs[a], TApply(regs[b], <<1,2,3>>))
Code(x) == (IF x[1] = "mul" THEN 0 ELSE 31) + 9*x[2] + 3*x[3] + x[4]
Hash == LET RECURSIVE S(_)
            S(i) == IF i = 0 THEN 0 ELSE (37 * S(i-1) + Code(h[i])) % 100003
        IN S(Len(h))
Export == (Len(h) = Depth /\ Hash % Rate = 0) => Emit([h |-> h])
=============================================================================
