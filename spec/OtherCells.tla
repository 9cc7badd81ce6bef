------------------------------- MODULE OtherCells -------------------------------
(***************************************************************************)
(* The simplices of the algebra under another convention: other vertices,   *)
(* entities numbered and oriented otherwise.  Elements built on those are,   *)
(* seen from the UFC simplex, elements of the same family.                  *)
(***************************************************************************)
EXTENDS Algebra

VARIABLES conv
ovars == << term, nops, conv >>

SmallEnough(t) == SpaceDim(t) <= (IF Deeper THEN 120 ELSE 40)
OInit == Init /\ AnyCell(term) /\ SmallEnough(term) /\ conv \in ConvsOf(Dm(term))
ONext == /\ nops < 2 /\ nops' = nops + 1 /\ conv' = conv
         /\ \/ MakeEnriched \/ MakeNodal \/ Break \/ Mix
            \/ (\E dom \in {"interior", "vertex", "edge", "face", "facet"} : RestrictTo(dom))
         /\ AnyCell(term') /\ SmallEnough(term')
OSpec == OInit /\ [][ONext]_ovars
OView == << term, conv >>
OInv == conv \in ConvsOf(Dm(term)) /\ WellFormed
EmitOther == PrintT(<<"OTHER", ToJson([t |-> term, x |-> conv, dim |-> SpaceDim(term), dual |-> DualDefined(term),
          kind |-> TraceKind(term), claim |-> ClaimedEnts(term), L |-> LineDeg(term), m |-> TraceDeg(term), nc |-> NComp(term)])>>)
=============================================================================
