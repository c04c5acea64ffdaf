-------------------------------- MODULE Arms --------------------------------
(***************************************************************************)
(* The closed-form families (C23): the arm that a parameter set stands     *)
(* for, and the robots whose zero position is another posture of that arm. *)
(***************************************************************************)
EXTENDS SceneGraph
CONSTANT Quarter      \* a quarter turn

(* The same mechanism described from another zero position: joint i of the  *)
(* result turns by q when joint i of rob turns by th[i] + sg[i]*q.          *)
ReHome(rob, th, sg) ==
  LET n == Len(rob.jt)
      A(i) == ChainT([rob EXCEPT !.P = [k \in 1..(n+1) |-> Zero3]], th, i).R
  IN [rob EXCEPT !.H = [i \in 1..n |-> LET h == MVec(A(i), rob.H[i]) IN IF sg[i] = 1 THEN h ELSE Neg(h)],
                 !.P = [i \in 1..(n+1) |-> MVec(A(i-1), rob.P[i])],
                 !.flange = << TMul([R |-> A(n), p |-> Zero3], Opt(rob.flange)) >>]

(* Ortho-parallel arm with a spherical wrist.  All joints zero is the arm   *)
(* stretched out upwards.  o: [a1, a2, b, c1, c2, c3, c4].                  *)
OpwArm(o) == [ H |-> <<Ez, Ey, Ey, Ez, Ey, Ez>>, jt |-> <<0,0,0,0,0,0>>,
               P |-> << <<0,0,o.c1>>, <<o.a1, o.b, 0>>, <<0,0,o.c2>>, <<o.a2, 0, o.c3>>, Zero3, Zero3, <<0,0,o.c4>> >>,
               base |-> <<>>, flange |-> <<>>, tool |-> <<>> ]
\* the solver's joint k stands at sg[k]*q[k] - off[k]
OpwFwd(o, off, sg, q) == Fwd(OpwArm(o), [i \in 1..6 |-> sg[i] * q[i] - off[i]])

(* Universal Robots arm by its Denavit-Hartenberg table, seen from the      *)
(* solver's base, which is half a turn away from the frame of the table.    *)
DHa(th, d, a, al) == LET R == Rot(Ez, th) IN [R |-> MMul(R, Rot(Ex, al)), p |-> Add(<<0,0,d>>, MVec(R, <<a,0,0>>))]
UrFwd(u, q) ==
  TMul([R |-> Rot(Ez, 2*Quarter), p |-> Zero3],
  TMul(DHa(q[1], u.d1, 0, Quarter), TMul(DHa(q[2], 0, u.a2, 0), TMul(DHa(q[3], 0, u.a3, 0),
  TMul(DHa(q[4], u.d4, 0, Quarter), TMul(DHa(q[5], u.d5, 0, -Quarter), DHa(q[6], u.d6, 0, 0)))))))
\* the same arm as a robot of the toolbox, its base half a turn from the world
UrArm(u) == [ H |-> <<Ez, Neg(Ey), Neg(Ey), Neg(Ey), Neg(Ez), Neg(Ey)>>, jt |-> <<0,0,0,0,0,0>>,
              P |-> << <<0,0,u.d1>>, Zero3, <<u.a2,0,0>>, <<u.a3,-u.d4,0>>, <<0,0,-u.d5>>, <<0,-u.d6,0>>, Zero3 >>,
              base |-> << [R |-> Rot(Ez, 2*Quarter), p |-> Zero3] >>, flange |-> << [R |-> Rot(Ex, Quarter), p |-> Zero3] >>, tool |-> <<>> ]
=============================================================================
