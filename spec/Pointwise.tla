------------------------------- MODULE Pointwise -------------------------------
(***************************************************************************)
(* Elements whose space is that of all polynomials up to a degree (per      *)
(* factor on products, per component for fields), and sets of points which  *)
(* are unisolvent for it: values at these points make up a dual basis.      *)
(***************************************************************************)
EXTENDS Algebra

VARIABLES where
pvars == << where, vars >>

Full(t) == t.f \in {"CG", "DG", "P0", "Bern", "GLL", "GL", "GR", "Taylor", "CR", "Herm", "Arg", "Morley", "BDM", "N2", "DPC"}
FullDeg(t) == CASE t.f = "P0" -> 0 [] t.f = "Herm" -> 3 [] t.f = "Morley" -> 2 [] t.f = "CR" -> 1 [] OTHER -> t.k
RECURSIVE FullTerm(_)
FullTerm(t) == CASE t.f = "tp" -> \A i \in 1..2 : FullTerm(t.p[i]) [] t.f \in {"flat", "brk"} -> FullTerm(t.p[1]) [] OTHER -> Full(t)
Den == 5040
(* 1: the lattice, 2: the lattice drawn into the interior, 3: points off any lattice *)
SPts(d, k, way) ==
  LET L == SimplexLat(d, k) IN
  [i \in 1..Len(L) |-> [j \in 1..d |->
     CASE way = 1 -> IF k = 0 THEN Den \div (d + 1) ELSE (L[i][j] * Den) \div k
       [] way = 2 -> ((L[i][j] + 1) * Den) \div (k + d + 1)
       [] OTHER -> ((L[i][j] * Den) \div (k + 1)) + 37 * j + ((11 * L[i][j] * L[i][j]) % 60)]]
RECURSIVE UniPts(_, _)
UniPts(t, way) ==
  CASE t.f = "tp" -> LET A == UniPts(t.p[1], way)  B == UniPts(t.p[2], way) IN
                     [n \in 1..(Len(A) * Len(B)) |-> A[((n - 1) \div Len(B)) + 1] \o B[((n - 1) % Len(B)) + 1]]
    [] t.f \in {"flat", "brk"} -> UniPts(t.p[1], way)
    [] OTHER -> SPts(Dm(t), FullDeg(t), way)
PInit == Init /\ where = 0
PGrow == where = 0 /\ Next /\ UNCHANGED where
Place == /\ where = 0 /\ FullTerm(term) /\ (Deeper \/ SpaceDim(term) <= 40)
         /\ (IF IsComposite(term) THEN where' \in {1 + (SpaceDim(term) % 3)} ELSE where' \in 1..3) /\ UNCHANGED vars
PNext == PGrow \/ Place
PSpec == PInit /\ [][PNext]_pvars
PView == << term, where >>
(* as many values as functions, at different points of the cell *)
PInv == where > 0 => LET ps == UniPts(term, where) IN
          /\ Len(ps) * NComp(term) = SpaceDim(term)
          /\ Cardinality(RangeOf(ps)) = Len(ps)
          /\ \A i \in 1..Len(ps) : \A j \in 1..Len(ps[i]) : ps[i][j] >= 0 /\ ps[i][j] <= Den
EmitPts == where > 0 => PrintT(<<"PTS", ToJson([t |-> term, dim |-> SpaceDim(term), nc |-> NComp(term), m |-> Den, pts |-> UniPts(term, where)])>>)
=============================================================================
