--------------------------------- MODULE Urdf ---------------------------------
(***************************************************************************)
(* URDF trees: which chain is selected, and when it is refused (C18, C19). *)
(* A tree is a sequence of joints [n, type, pa, ch, ...]; links are the    *)
(* names in tree.links.  Pure structure, no arithmetic.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
UJ(t) == 1..Len(t.joints)
Links(t) == { t.links[i] : i \in 1..Len(t.links) }
ParentOf(t, l) == { i \in UJ(t) : t.joints[i].ch = l }
RootOf(t) == CHOOSE l \in Links(t) : ParentOf(t, l) = {}
\* joints from root down to l, or <<0>> when l is not below root
RECURSIVE UPath(_, _, _)
UPath(t, root, l) ==
  IF l = root THEN <<>>
  ELSE IF ParentOf(t, l) = {} THEN <<0>>
  ELSE LET j == CHOOSE i \in ParentOf(t, l) : TRUE
           p == UPath(t, root, t.joints[j].pa)
       IN IF p = <<0>> THEN p ELSE Append(p, j)
Types(t, p) == { t.joints[p[i]].type : i \in 1..Len(p) }
ULeaves(t) == { l \in Links(t) : \A i \in UJ(t) : t.joints[i].pa # l }
\* leaves that can be meant when no tip is named
AutoTips(t, root) == { l \in ULeaves(t) : LET p == UPath(t, root, l) IN
                          p # <<0>> /\ "floating" \notin Types(t, p) /\ Types(t, p) \ {"fixed"} # {} }
MoveIdx(t, p) == LET RECURSIVE M(_)
                     M(i) == IF i = 0 THEN <<>> ELSE IF t.joints[p[i]].type = "fixed" THEN M(i-1) ELSE Append(M(i-1), p[i])
                 IN M(Len(p))
Refuse == [k |-> "refuse", root |-> "-", tip |-> "-", path |-> <<>>]
\* rootO, tipO: a link name, or "-" when not given
Outcome(t, rootO, tipO) ==
  IF rootO # "-" /\ rootO \notin Links(t) THEN Refuse
  ELSE LET root == IF rootO = "-" THEN RootOf(t) ELSE rootO
           at == AutoTips(t, root)
       IN IF tipO = "-" /\ Cardinality(at) # 1 THEN Refuse
          ELSE LET tip == IF tipO = "-" THEN CHOOSE l \in at : TRUE ELSE tipO IN
               IF tip \notin Links(t) THEN Refuse
               ELSE LET p == UPath(t, root, tip) IN
                    IF p = <<0>> \/ p = <<>> THEN Refuse
                    ELSE IF ~(Types(t, p) \subseteq {"revolute", "prismatic", "fixed"}) THEN Refuse
                    ELSE [k |-> IF MoveIdx(t, p) = <<>> THEN "either" ELSE "robot", root |-> root, tip |-> tip, path |-> p]
=============================================================================
