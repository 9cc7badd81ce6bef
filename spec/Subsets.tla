------------------------------- MODULE Subsets -------------------------------
(***************************************************************************)
(* Restrictions to lists of degrees of freedom: an element and a growing or *)
(* shrinking list of indices, in any order.                                 *)
(***************************************************************************)
EXTENDS Algebra

VARIABLES picked
svars == << picked, vars >>
SubBase == { t \in Plain : Restrictable(t) /\ SpaceDim(t) \in 2..20 /\ t.f \notin {"Bub", "FBub"} }
FirstPicks(n) == { << i >> : i \in {0, n \div 2, n - 1} }
Evens(n) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i % 2 = 0)
All(n) == [i \in 1..n |-> i - 1]
(* one dimension of entities, as the codimension bubbles do; unsorted lists *)
SInit == /\ term \in SubBase /\ nops = 0
         /\ picked \in FirstPicks(SpaceDim(term)) \union { Evens(SpaceDim(term)), Rev(Evens(SpaceDim(term))), All(SpaceDim(term)) }
(* grow a short list by a dof far away, on either side *)
SNext == /\ Len(picked) = 1 /\ UNCHANGED vars
         /\ \E k \in {1, 2} : LET j == (picked[1] + k * (IF Deeper THEN 1 ELSE 3)) % SpaceDim(term) IN
              j # picked[1] /\ (picked' = Append(picked, j) \/ picked' = << j >> \o picked)
SSpec == SInit /\ [][SNext]_svars
SView == << term, picked >>
SInv == \A i \in 1..Len(picked) : picked[i] \in 0..(SpaceDim(term) - 1)
EmitSub == PrintT(<<"SUB", ToJson([t |-> term, ix |-> picked, dim |-> SpaceDim(term)])>>)
=============================================================================
