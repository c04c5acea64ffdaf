-------------------------------- MODULE MC_Rr --------------------------------
(***************************************************************************)
(* Robot information by kind: joint lists with faults, chains over joint   *)
(* numbers (in and out of range and order), list lengths, chain choice.    *)
(***************************************************************************)
EXTENDS RrInfo, TLC, Json
CONSTANTS NJ, NC, Rate
VARIABLES d, k, done
vars == <<d, k, done>>
JointKinds == { [type |-> "revolute", lim |-> <<0>>], [type |-> "prismatic", lim |-> <<0>>], [type |-> "screw", lim |-> <<0>>], [type |-> "revolute", lim |-> <<>>] }
Nums == (-1)..NJ
Seqs == UNION { [1..n -> Nums] : n \in 1..NC }
Lens == { <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>> }
Fill(n) == [i \in 1..n |-> i]
Init == d = [joints |-> <<>>, chains |-> <<>>] /\ k = -2 /\ done = FALSE
AddJoint == /\ d.chains = <<>> /\ ~done /\ Len(d.joints) < NJ
            /\ \E j \in JointKinds : d' = [d EXCEPT !.joints = Append(@, [type |-> j.type, lim |-> j.lim, name |-> Len(d.joints) + 1])]
            /\ UNCHANGED <<k, done>>
AddChain == /\ d.joints # <<>> /\ ~done /\ Len(d.chains) < 1
            /\ \E s \in Seqs, l \in Lens : d' = [d EXCEPT !.chains = Append(@, [jn |-> s, H |-> Fill(Len(s) + l[1]), P |-> Fill(Len(s) + 1 + l[2])])]
            /\ UNCHANGED <<k, done>>
Second == /\ Len(d.chains) = 1 /\ ~done /\ Len(d.joints) = NJ
          /\ \E s \in { <<0>>, <<NJ-1>>, <<0, NJ-1>> } : d' = [d EXCEPT !.chains = IF s = <<0>> THEN Append(@, [jn |-> s, H |-> Fill(1), P |-> Fill(2)]) ELSE <<[jn |-> s, H |-> Fill(Len(s)), P |-> Fill(Len(s)+1)]>> \o @]
          /\ UNCHANGED <<k, done>>
Pick == d.chains # <<>> /\ ~done /\ k' \in (-1)..Len(d.chains) /\ done' = TRUE /\ UNCHANGED d
Next == AddJoint \/ AddChain \/ Second \/ Pick
Spec == Init /\ [][Next]_vars
\* the description cut down to one chain and its joints, renumbered from 0
Cut == LET ch == d.chains[k+1] IN
       [joints |-> RrJoints(d, k), chains |-> << [ch EXCEPT !.jn = [i \in 1..Len(ch.jn) |-> i - 1]] >>]
Laws == done =>
  LET o == RrOutcome(d, k) IN
  /\ (k < 0 \/ k >= Len(d.chains)) => o = "refuse"
  /\ o # "refuse" =>
       /\ Cardinality({ RrJoints(d, k)[i].name : i \in 1..Len(RrJoints(d, k)) }) = Len(d.chains[k+1].jn)   \* no joint twice
       /\ RrOutcome(Cut, 0) = "robot" /\ RrJoints(Cut, 0) = RrJoints(d, k)                                \* numbering is only naming
       /\ \A i, j \in 1..Len(d.chains[k+1].jn) : i < j => RrJoints(d, k)[i].name < RrJoints(d, k)[j].name
TypeCode(j) == CASE j.type = "revolute" -> IF j.lim = <<>> THEN 4 ELSE 1 [] j.type = "prismatic" -> 2 [] OTHER -> 3
Hash == LET hj[i \in 0..Len(d.joints)] == IF i = 0 THEN k + 3 ELSE hj[i-1]*5 + TypeCode(d.joints[i])
            C(c) == LET s == d.chains[c].jn  h[i \in 0..Len(s)] == IF i = 0 THEN Len(d.chains[c].H)*3 + Len(d.chains[c].P) ELSE h[i-1]*7 + s[i] + 1 IN h[Len(s)]
            hc[i \in 0..Len(d.chains)] == IF i = 0 THEN hj[Len(d.joints)] ELSE hc[i-1]*11 + C(i)
        IN hc[Len(d.chains)]
Export == (done /\ (IF RrOutcome(d, k) = "refuse" THEN Hash % Rate = 0 ELSE Hash % (Rate \div 16 + 1) = 0))
                    => PrintT("CASE " \o ToJson([joints |-> d.joints, chains |-> [c \in 1..Len(d.chains) |-> [jn |-> d.chains[c].jn, h |-> Len(d.chains[c].H), p |-> Len(d.chains[c].P)]], k |-> k]))
=============================================================================
