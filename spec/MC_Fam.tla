-------------------------------- MODULE MC_Fam --------------------------------
(***************************************************************************)
(* The closed-form families over the lattice (C23): every zero position,   *)
(* every choice of joint directions, a set of link lengths.  The law: the  *)
(* robot described from another zero position moves as the arm of its      *)
(* parameters does, so the robots generated from these cases are members   *)
(* of the family and their parameters are known.                           *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS Rate
VARIABLES c, q
vars == <<c, q>>
Signs == [1..6 -> {1, -1}]
\* home: upright; outstretched with the bend at joint 2 or at joint 3
Homes == { "up", "bend2", "bend3" }
Th(h) == CASE h = "up" -> <<0,0,0,0,0,0>> [] h = "bend2" -> <<0,1,0,0,0,0>> [] h = "bend3" -> <<0,0,1,0,0,0>>
Lens == { [a1 |-> 0, a2 |-> 0, b |-> 0, c1 |-> 2, c2 |-> 3, c3 |-> 2, c4 |-> 1], [a1 |-> 1, a2 |-> -1, b |-> 2, c1 |-> 1, c2 |-> 3, c3 |-> 3, c4 |-> 0] }
UrLens == { [d1 |-> 1, a2 |-> -3, a3 |-> -2, d4 |-> 1, d5 |-> 2, d6 |-> 1], [d1 |-> 0, a2 |-> 2, a3 |-> -1, d4 |-> -1, d5 |-> 1, d6 |-> 0] }
None == [fam |-> "-"]
Init == c = None /\ q = <<>>
PickOpw == /\ c = None
           /\ \E h \in Homes, s \in Signs, l \in Lens : c' = [fam |-> "opw", home |-> h, sg |-> s, l |-> l]
           /\ UNCHANGED q
PickUr == /\ c = None /\ \E l \in UrLens, x \in {"minus", "plus"} : c' = [fam |-> "ur", home |-> x, l |-> l]
          /\ UNCHANGED q
\* joint vectors that move all, one or some joints
Move == /\ c # None /\ q = <<>>
        /\ q' \in { <<1,2,3,1,1,2>>, <<0,1,0,3,2,1>>, <<3,3,1,0,1,0>> } \cup { [[i \in 1..6 |-> 0] EXCEPT ![k] = 1] : k \in 1..6 }
        /\ UNCHANGED c
Next == PickOpw \/ PickUr \/ Move
Spec == Init /\ [][Next]_vars
\* arms aligned with +x: the whole arm turned half a turn about the vertical instead of its base
PlusX(u) == LET r == UrArm(u)  Z == Rot(Ez, 2) IN
  [r EXCEPT !.H = [i \in 1..6 |-> MVec(Z, r.H[i])], !.P = [i \in 1..7 |-> MVec(Z, r.P[i])], !.base = <<>>,
            !.flange = << [R |-> MMul(Z, r.flange[1].R), p |-> Zero3] >>]
Member == IF c.fam = "opw" THEN ReHome(OpwArm(c.l), Th(c.home), c.sg) ELSE IF c.home = "minus" THEN UrArm(c.l) ELSE PlusX(c.l)
Laws == (c # None /\ q # <<>>) =>
  IF c.fam = "opw"
  THEN /\ Fwd(Member, q) = OpwFwd(c.l, [i \in 1..6 |-> -Th(c.home)[i]], c.sg, q)
       /\ \A h \in LAxes : Member.flange[1].R = (IF c.home = "up" THEN I3 ELSE Rot(Ey, 1))
       /\ ReHome(Member, <<0,0,0,0,0,0>>, <<1,1,1,1,1,1>>) = Member
  ELSE Fwd(Member, q) = UrFwd(c.l, q)
\* a joint direction that is taken for the other one is noticed
Sharp == (c # None /\ q # <<>> /\ c.fam = "opw") => \A k \in 1..6 : q[k] % 2 = 1 =>
      OpwFwd(c.l, [i \in 1..6 |-> -Th(c.home)[i]], [c.sg EXCEPT ![k] = -@], q) # Fwd(Member, q)
Export == (c # None /\ q = <<>>) => Emit([fam |-> c.fam, home |-> c.home, sg |-> IF c.fam = "opw" THEN c.sg ELSE <<1,1,1,1,1,1>>])
=============================================================================
