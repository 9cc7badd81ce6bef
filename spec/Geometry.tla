------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* The cells a user can build: simplices, products of cells with two or     *)
(* more factors nested in any way, hypercubes, and the simplices which do   *)
(* not follow the UFC convention.                                           *)
(***************************************************************************)
EXTENDS Cells, Json, IOUtils

DeepG == IOEnv.TIER = "thorough"
VARIABLES built, grown
gvars == << built, grown >>

Other(n) == [k |-> "other", n |-> n]
OtherNames == {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron", "IntrepidTriangle", "IntrepidTetrahedron"}
Elementary_ == {Point, Interval, Triangle, Tetra, Quad, Hex}
MaxDim == IF DeepG THEN 5 ELSE 4
RECURSIVE Factors(_)
Factors(c) == IF c.k = "prod" THEN SumSeq([i \in 1..Len(c.c) |-> Factors(c.c[i])]) ELSE 1
Fits(c) == Dim(c) <= MaxDim /\ Factors(c) <= (IF Dim(c) <= 3 THEN 3 ELSE 2) /\ Dim(c) >= 1

GInit == grown = 0 /\ built \in Elementary_ \union { Other(n) : n \in OtherNames }
GNext == /\ built.k # "other" /\ grown < 2 /\ grown' = grown + 1
         /\ \/ \E b \in Elementary_ : LET p == Prod(<< built, b >>) IN Fits(p) /\ built' = p
            \/ \E b \in Elementary_ : LET p == Prod(<< b, built >>) IN Fits(p) /\ built' = p
            \/ built.k = "prod" /\ \E b \in Elementary_ :            \* one more factor
                 LET p == Prod(Append(built.c, b)) IN Fits(p) /\ built' = p
GSpec == GInit /\ [][GNext]_gvars
GView == built

(* the geometry is consistent: what Euler and the tables say *)
GInv == \/ built.k = "other"
        \/ /\ Len(TopCode(built)) = Width(built)
           /\ SumSeq([i \in 1..Len(EntList(built)) |-> IF SumSeq(EntList(built)[i][1]) % 2 = 0 THEN 1 ELSE -1]) = 1
           /\ \A s \in RangeOf(EntList(built)) :
                LET ec == EntCell(built, s[1]) IN
                /\ Len(EntVerts(built, s[1], s[2])) = Len(Verts_(ec))
                \* the embedding takes the vertices of the entity, in order, to its vertices in the cell
                /\ \A v \in 1..Len(Verts_(ec)) :
                     Embed(built, s[1], s[2], Verts_(ec)[v], 1) = At(Verts(built), EntVerts(built, s[1], s[2])[v])
EmitCell == PrintT(<<"CELL", ToJson([c |-> built])>>)
=============================================================================
