-------------------------------- MODULE MC_Tf --------------------------------
(***************************************************************************)
(* All histories of up to K buffer events: updates (late ones, corrections *)
(* and changes of parent included), updates under way, waits and clearing. *)
(***************************************************************************)
EXTENDS Lat
CONSTANTS K, Rate
VARIABLES log, pend, hist
vars == <<log, pend, hist>>
Frames == {"w", "a", "b"}
Poses == << [R |-> Rot(Ez, 1), p |-> <<1,0,2>>], [R |-> Rot(Ex, 3), p |-> <<0,-1,1>>] >>
Edges == { <<"a","w">>, <<"b","a">>, <<"b","w">>, <<"w","b">> }
Times == {1, 2}
Upd(e, t, k) == [f |-> e[1], pa |-> e[2], t |-> t, T |-> Poses[k]]
\* no frame below itself at any time
Acyclic(l) == \A i \in 1..Len(l) : ~(l[i].f = "w" /\ \E k \in 1..Len(l) : l[k].f = "b") 
Q(a, b, t) == [to |-> a, tt |-> t, from |-> b, ft |-> t, via |-> "-"]
Qs == { [to |-> a, tt |-> t, from |-> b, ft |-> t, via |-> "-"] : a \in Frames, b \in Frames, t \in {0, 1, 2} }
Fulls == { [to |-> a, tt |-> s, from |-> b, ft |-> t, via |-> v] : a \in Frames, b \in Frames, s \in {1, 2}, t \in {0, 1, 2}, v \in Frames }
Init == log = <<>> /\ pend = <<>> /\ hist = <<>>
More == Len(hist) < K
Set == /\ More /\ \E e \in Edges, t \in Times, k \in 1..2 : /\ log' = Append(log, Upd(e, t, k)) /\ hist' = Append(hist, <<"set", e[1], e[2], t, k>>)
       /\ UNCHANGED pend
SendLater == /\ More /\ Len(pend) < 1 /\ \E e \in Edges, d \in {1, 3} : pend' = Append(pend, [d |-> d, u |-> Upd(e, 1, 1)]) /\ hist' = Append(hist, <<"pend", e[1], e[2], 1, d>>)
             /\ UNCHANGED log
Wait == /\ More /\ pend # <<>> /\ \E e \in {<<"w","b">>, <<"a","w">>}, t \in {0, 1} :
             LET a == TfArrive(log, pend, [to |-> e[1], tt |-> t, from |-> e[2], ft |-> t, via |-> "-"], 2)
             IN log' = a.log /\ pend' = a.pend /\ hist' = Append(hist, <<"wait", e[1], e[2], t, 2>>)
Clear == More /\ log # <<>> /\ log' = <<>> /\ hist' = Append(hist, <<"clear", "w", "w", 0, 0>>) /\ UNCHANGED pend
Next == (Set \/ SendLater \/ Wait \/ Clear) /\ Acyclic(log')
Spec == Init /\ [][Next]_vars

Can(x) == TfOutcome(log, x) = "ok"
Swap(x) == [x EXCEPT !.to = x.from, !.tt = x.ft, !.from = x.to, !.ft = x.tt]
One1(x) == [x EXCEPT !.via = "-"]
Touched == Len(hist) > 0 /\ hist[Len(hist)][1] # "pend"       \* the buffer may have changed
Laws == Touched =>
  /\ \A x \in Qs : Can(x) => /\ LIsRotation(TfLookup(log, x).R)
                             /\ Can(Swap(x)) /\ TfLookup(log, Swap(x)) = TInv(TfLookup(log, x))
                             /\ x.to = x.from => TfLookup(log, x) = TId
  /\ \A t \in {0, 1, 2} : \A a, b, c \in Frames : (a # b /\ b # c) =>
        LET x == Q(a, b, t)  y == Q(b, c, t)  z == Q(a, c, t) IN
        (Can(x) /\ Can(y)) => Can(z) /\ TfLookup(log, z) = TMul(TfLookup(log, x), TfLookup(log, y))
  /\ \A x \in Fulls : Can(x) =>
        /\ Can(Swap(x)) /\ TfLookup(log, Swap(x)) = TInv(TfLookup(log, x))
        /\ x.tt = x.ft => (Can(One1(x)) /\ TfLookup(log, x) = TfLookup(log, One1(x)))     \* at one instant the fixed frame does not matter
        /\ x.via = x.from /\ Can([x EXCEPT !.ft = x.tt]) => TfLookup(log, x) = TfLookup(log, [One1(x) EXCEPT !.ft = x.tt])
  /\ log = <<>> => \A x \in Qs \cup Fulls : ~Can(x)
\* a new sample changes no answer about an earlier time
PastKept == [][ Len(log') = Len(log) + 1 /\ log'[Len(log')].t = 2 =>
                \A x \in Qs : (x.tt = 1 /\ Can(x)) => (TfOutcome(log', x) = "ok" => TfLookup(log', x) = TfLookup(log, x)) ]_vars
Code(c) == CASE c = "w" -> 1 [] c = "a" -> 2 [] c = "b" -> 3 [] c = "set" -> 4 [] c = "pend" -> 5 [] c = "wait" -> 6 [] OTHER -> 7
Hash == LET h[i \in 0..Len(hist)] == IF i = 0 THEN 1 ELSE (h[i-1]*37 + Code(hist[i][1])*11 + Code(hist[i][2])*7 + Code(hist[i][3])*5 + hist[i][4]*3 + hist[i][5]) % 10007 IN h[Len(hist)]
Export == (Len(hist) = K /\ Hash % Rate = 0) => Emit([h |-> hist])
=============================================================================
