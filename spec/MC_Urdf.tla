------------------------------- MODULE MC_Urdf -------------------------------
(***************************************************************************)
(* Mode "tree": every tree of up to N joints over the joint types, with    *)
(* every choice of root and tip; laws of chain selection.                  *)
(* Mode "chain": chains over the exact lattice; the conversion of a URDF   *)
(* chain into axes, offsets and tool rotation moves as the tree does.      *)
(***************************************************************************)
EXTENDS Lat, Urdf
CONSTANTS Mode, N, Rate
VARIABLES tree, sel
vars == <<tree, sel>>
LName == <<"a", "b", "c", "d", "e", "f">>
JName == <<"j1", "j2", "j3", "j4", "j5", "j6">>
JTypes == {"revolute", "prismatic", "fixed", "continuous", "floating", "planar"}
None == <<"-", "-">>

Origins == { [R |-> R, p |-> p] : R \in { Rot(k, 1) : k \in LAxes } \cup {I3, Rot(Ez, 2)}, p \in {<<0,0,0>>, <<1,0,2>>} }
Init == tree = [links |-> <<"a">>, joints |-> <<>>] /\ sel = None
AddTree == /\ Mode = "tree" /\ Len(tree.joints) < N /\ sel = None
           /\ \E k \in 1..Len(tree.links), ty \in JTypes :
               LET m == Len(tree.links) + 1 IN
               tree' = [links |-> Append(tree.links, LName[m]),
                        joints |-> Append(tree.joints, [n |-> JName[m-1], type |-> ty, pa |-> tree.links[k], ch |-> LName[m]])]
           /\ UNCHANGED sel
Choose == /\ Mode = "tree" /\ tree.joints # <<>> /\ sel = None
          /\ \E r \in Links(tree) \cup {"-", "nolink"}, t \in Links(tree) \cup {"-", "nolink"} : sel' = <<r, t>> /\ sel' # None
          /\ UNCHANGED tree
AddChain == /\ Mode = "chain" /\ Len(tree.joints) < N
            /\ \E o \in Origins, ty \in {"revolute", "prismatic", "fixed"}, a \in {Ex, Ez, <<0,-1,0>>} :
                LET m == Len(tree.links) + 1 IN
                /\ ty = "fixed" => a = Ex
                /\ tree' = [links |-> Append(tree.links, LName[m]),
                            joints |-> Append(tree.joints, [n |-> JName[m-1], type |-> ty, pa |-> LName[m-1], ch |-> LName[m], o |-> o, axis |-> a])]
            /\ UNCHANGED sel
Next == AddTree \/ Choose \/ AddChain
Spec == Init /\ [][Next]_vars

\* ---- chain selection laws
Selection ==
  LET o == Outcome(tree, sel[1], sel[2])  root == IF sel[1] = "-" THEN RootOf(tree) ELSE sel[1] IN
  /\ Cardinality({ l \in Links(tree) : ParentOf(tree, l) = {} }) = 1
  /\ o.k # "refuse" =>
       LET p == o.path IN
       /\ tree.joints[p[1]].pa = o.root /\ tree.joints[p[Len(p)]].ch = o.tip
       /\ \A i \in 1..(Len(p)-1) : tree.joints[p[i]].ch = tree.joints[p[i+1]].pa
       /\ Cardinality({ p[i] : i \in 1..Len(p) }) = Len(p)
       \* naming the chosen ends explicitly changes nothing
       /\ Outcome(tree, o.root, o.tip) = o
       \* a chain is the concatenation of its parts
       /\ \A l \in Links(tree) : LET u == UPath(tree, o.root, l) w == UPath(tree, l, o.tip) IN
              (u # <<0>> /\ w # <<0>>) => u \o w = p
  /\ (sel[2] = "-" /\ o.k # "refuse") => \A l \in AutoTips(tree, o.root) : l = o.tip
\* ---- the product-of-exponentials form of a chain
RECURSIVE Poe(_, _, _)
\* joints, running rotation, robot under construction
Poe(js, R, r) ==
  IF js = <<>> THEN [r EXCEPT !.tool = << [R |-> R, p |-> Zero3] >>]
  ELSE LET j == js[1]
           n == Len(r.jt)
           P1 == [r.P EXCEPT ![n+1] = Add(@, MVec(R, j.o.p))]
           R1 == MMul(R, j.o.R)
           r1 == [r EXCEPT !.P = P1]
       IN Poe(SubSeq(js, 2, Len(js)), R1,
              IF j.type = "fixed" THEN r1
              ELSE [r1 EXCEPT !.H = Append(@, MVec(R1, j.axis)), !.jt = Append(@, IF j.type = "revolute" THEN 0 ELSE 1), !.P = Append(@, Zero3)])
RECURSIVE Pose(_, _)
Pose(js, q) == IF js = <<>> THEN TId
               ELSE LET j == js[1] mv == j.type # "fixed"
                        q2 == IF mv THEN SubSeq(q, 2, Len(q)) ELSE q
                    IN TMul(TMul(j.o, IF mv THEN JointT(j.axis, IF j.type = "revolute" THEN 0 ELSE 1, q[1]) ELSE TId), Pose(SubSeq(js, 2, Len(js)), q2))
Conversion == LET r == Poe(tree.joints, I3, [H |-> <<>>, P |-> <<Zero3>>, jt |-> <<>>, base |-> <<>>, flange |-> <<>>, tool |-> <<>>]) IN
   \A q \in [1..Len(r.jt) -> {0, 1, 2}] : Fwd(r, q) = Pose(tree.joints, q)
Laws == IF Mode = "tree" THEN (tree.joints # <<>> => Selection) ELSE Conversion
Code(x) == CASE x = "revolute" -> 1 [] x = "prismatic" -> 2 [] x = "fixed" -> 3 [] x = "continuous" -> 4 [] x = "floating" -> 5 [] x = "planar" -> 6
             [] x = "-" -> 7 [] x = "nolink" -> 8 [] x = "a" -> 9 [] x = "b" -> 10 [] x = "c" -> 11 [] x = "d" -> 12 [] x = "e" -> 13 [] OTHER -> 14
Hash == LET h[i \in 0..Len(tree.joints)] == IF i = 0 THEN Code(sel[1])*5 + Code(sel[2])*3 ELSE h[i-1]*7 + Code(tree.joints[i].type)*3 + Code(tree.joints[i].pa)
        IN h[Len(tree.joints)]
\* choices that name existing, movable chains are rarer: keep more of them
Good == Outcome(tree, sel[1], sel[2]).k = "robot"
Export == (Mode = "tree" /\ tree.joints # <<>> /\ (IF Good THEN Hash % (Rate \div 4 + 1) = 0 ELSE Hash % Rate = 0))
             => Emit([links |-> tree.links, joints |-> tree.joints, root |-> sel[1], tip |-> sel[2]])
=============================================================================
