-------------------------------- MODULE Lat --------------------------------
(***************************************************************************)
(* Kinematics over the exact integer lattice: lengths are integers, angles *)
(* are numbers of quarter turns, axes are coordinate axes.  In this        *)
(* arithmetic every law below is decided exactly by enumeration.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
LMul(a, b) == a * b
LSin(n) == LET r == n % 4 IN IF r = 1 THEN 1 ELSE IF r = 3 THEN -1 ELSE 0
LCos(n) == LSin(n + 1)
INSTANCE Arms WITH One <- 1, Mul <- LMul, Sin <- LSin, Cos <- LCos, Quarter <- 1

LAxes == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> }
\* a case printed for the conformance driver
Emit(c) == PrintT("CASE " \o ToJson(c))
LIsRotation(R) == MMul(R, MTrans(R)) = I3 /\ Det(R) = 1
\* the 24 rotations of the cube
Octahedral == { MMul(Rot(Ez, c), MMul(Rot(Ey, b), Rot(Ex, a))) : a \in 0..3, b \in 0..3, c \in 0..3 }
=============================================================================
