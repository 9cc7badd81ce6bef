------------------------------ MODULE Functionals ------------------------------
(***************************************************************************)
(* Functionals of every kind on every simplex they make sense on, and sets  *)
(* of functionals that share points, derivatives and value shape.           *)
(***************************************************************************)
EXTENDS FunTerms, Json, IOUtils

DeepF == IOEnv.TIER = "thorough"
VARIABLES fset
EntOf(d, k) == 0..(Choose(d + 1, k + 1) - 1)
(* points of an entity of dimension k, and exponents of moments on it *)
PtsIn(k) == CASE k = 0 -> { <<>> } [] k = 1 -> { <<3>>, <<7>> } [] k = 2 -> { <<2, 3>>, <<7, 1>>, <<0, 5>> } [] OTHER -> { <<2, 3, 4>>, <<1, 0, 6>> }
MomIn(k) == CASE k = 1 -> { <<0, 0>>, <<1, 0>>, <<0, 2>>, <<1, 1>> }
              [] k = 2 -> { <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 1>>, <<0, 0, 2>> }
              [] OTHER -> { <<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 0, 1>> }
VecIn(d) == CASE d = 1 -> { <<3>> } [] d = 2 -> { <<1, 0>>, <<2, -3>> } [] OTHER -> { <<0, 1, 0>>, <<1, -2, 3>> }
AlphaIn(d) == CASE d = 1 -> { <<1>>, <<2>>, <<3>> } [] d = 2 -> { <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<1, 2>> }
                [] OTHER -> { <<0, 0, 1>>, <<1, 0, 1>>, <<0, 2, 0>>, <<1, 1, 1>> }

Mk(f, c) == [F0 EXCEPT !.f = f, !.c = c]
OnEnt(f, c) == LET q == Mk(f, c)  k == FDimOf(q) IN
  { [q EXCEPT !.e = e, !.pt = p] : e \in EntOf(UnitD(c), k), p \in PtsIn(k) }
AgainstMoms(f, c) == LET q == Mk(f, c)  k == FDimOf(q) IN
  { [q EXCEPT !.e = e, !.b = b] : e \in EntOf(UnitD(c), k), b \in MomIn(k) }
FUfc(c) == c \in UfcNames

Menu_(c) == LET d == UnitD(c) IN
  OnEnt("PointEvaluation", c)
  \union { [q EXCEPT !.i = i, !.w = << n >>] : q \in OnEnt("ComponentPointEvaluation", c), n \in {d, d + 1}, i \in 0..d }
  \union { [q EXCEPT !.a = a] : q \in OnEnt("PointDerivative", c), a \in AlphaIn(d) }
  \union OnEnt("PointNormalDerivative", c) \union OnEnt("PointNormalSecondDerivative", c)
  \union OnEnt("PointNormalEvaluation", c) \union OnEnt("PointEdgeTangentEvaluation", c) \union OnEnt("PointScaledNormalEvaluation", c)
  \union (IF d = 3 THEN { [q EXCEPT !.i = i] : q \in OnEnt("PointFaceTangentEvaluation", c), i \in 0..1 } ELSE {})
  \union { [q EXCEPT !.v = v, !.w = w] : q \in OnEnt("PointwiseInnerProductEvaluation", c), v \in VecIn(d), w \in VecIn(d) }
  \union AgainstMoms("IntegralMoment", c)
  \union { [q EXCEPT !.i = i, !.w = << n >>] : q \in AgainstMoms("ComponentMoment", c), n \in {d, d + 1}, i \in 0..d }
  \union AgainstMoms("IntegralMomentOfDivergence", c)
  \union (IF d = 2 THEN { [q EXCEPT !.v = v] : q \in AgainstMoms("IntegralMomentOfTensorDivergence", c), v \in VecIn(2) } ELSE {})
  \union { [q EXCEPT !.v = v, !.w = << d >>] : q \in AgainstMoms("FrobeniusIntegralMoment", c), v \in VecIn(d) }
  \union (IF d = 2 THEN { [q EXCEPT !.v = v, !.w = w] : q \in AgainstMoms("FrobeniusIntegralMoment", c), v \in { <<1, -2, 3, 4>> }, w \in { <<2, 2>>, <<4, 1>> } } ELSE {})
  \union { [q EXCEPT !.v = v, !.w = w] : q \in AgainstMoms("TensorBidirectionalMomentInnerProductEvaluation", c), v \in VecIn(d), w \in VecIn(d) }
  \union AgainstMoms("IntegralMomentOfEdgeTangentEvaluation", c)
  \union (IF d < 2 THEN {} ELSE
          AgainstMoms("IntegralMomentOfNormalDerivative", c) \union AgainstMoms("IntegralMomentOfScaledNormalEvaluation", c)
          \union AgainstMoms("IntegralMomentOfNormalEvaluation", c) \union AgainstMoms("IntegralMomentOfNormalNormalEvaluation", c)
          \union { [q EXCEPT !.v = v] : q \in AgainstMoms("MonkIntegralMoment", c), v \in VecIn(d) })
  \union (IF d = 2 THEN AgainstMoms("IntegralMomentOfTangentialEvaluation", c) ELSE {})
  \union (IF d = 3 THEN { [q EXCEPT !.v = v] : q \in AgainstMoms("IntegralMomentOfFaceTangentEvaluation", c), v \in VecIn(3) \union { <<0, 0, 1>>, <<1, 0, 0>> } } ELSE {})
  \* the Legendre moments are made for the UFC triangle
  \union (IF c # "triangle" THEN {} ELSE { [Mk(f, c) EXCEPT !.e = e, !.i = i] : f \in LegendreKinds, e \in 0..2, i \in 0..4 })

(* what can be said without knowing anything else *)
Sensible(q) == (q.f \in {"ComponentPointEvaluation", "ComponentMoment"} => q.i < q.w[1])
            /\ (q.f \in SymKinds /\ ~DeepF => q.v = q.w \/ q.b \in { <<>>, <<0, 0, 2>>, <<0, 2>>, <<0, 1, 0, 0>> })
Menus == [c \in ExpCells \ {"vertex"} |-> { q \in Menu_(c) : Sensible(q) }]
(* functionals for sets: few, all on the same points and on others *)
Few(c, sh) == { q \in Menus[c] : /\ FShape(q) = sh
                                 /\ q.e = 0
                                 /\ q.pt \in { <<>>, <<3>>, <<2, 3>>, <<2, 3, 4>> }
                                 /\ (q.b = <<>> \/ SumSeq(q.b) = 1)
                                 /\ q.v \in { <<>>, <<3>>, <<2, -3>>, <<1, -2, 3>>, <<1, -2, 3, 4>> }
                                 /\ (q.f \in LegendreKinds => q.i = 2)
                                 /\ (q.f \in {"ComponentPointEvaluation", "ComponentMoment"} => q.i = q.w[1] - 1) }
SetCells == IF DeepF THEN ExpCells \ {"vertex"} ELSE {"interval", "triangle", "tetrahedron", "DefaultTriangle"}
FInit == fset \in { << q >> : q \in UNION { Menus[c] : c \in ExpCells \ {"vertex"} } }
FNext == /\ Len(fset) < (IF DeepF \/ fset[1].c = "triangle" THEN 3 ELSE 2) /\ fset[1].c \in SetCells
         /\ \A j \in 1..Len(fset) : fset[j] \in Few(fset[1].c, FShape(fset[1]))
         /\ \E q \in Few(fset[1].c, FShape(fset[1])) :
              /\ (Len(fset) = 2 /\ ~DeepF => fset[1].f = q.f /\ q.f # fset[2].f)
              /\ fset' = Append(fset, q)
FSpec == FInit /\ [][FNext]_fset
FInv == /\ \A j \in 1..Len(fset) : fset[j].f \in FunKinds /\ FShape(fset[j]) = FShape(fset[1]) /\ FDimOf(fset[j]) >= 0
EmitFun == PrintT(<<"FUN", ToJson([fs |-> fset])>>)
=============================================================================
