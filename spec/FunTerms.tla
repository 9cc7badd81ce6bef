------------------------------- MODULE FunTerms -------------------------------
(***************************************************************************)
(* Linear functionals as terms: which functional, on which cell and entity, *)
(* at which point or against which polynomial.                              *)
(*                                                                         *)
(* [f, c, e, pt, b, v, w, a, i]: class, cell, entity, point of the entity   *)
(* (barycentric numerators over 12, without the first), exponents of the    *)
(* moment in barycentric coordinates, vectors, derivative, index.           *)
(***************************************************************************)
EXTENDS SetTerms, Sequences, Integers

F0 == [f |-> "", c |-> "", e |-> 0, pt |-> <<>>, b |-> <<>>, v |-> <<>>, w |-> <<>>, a |-> <<>>, i |-> 0]

PointKinds == {"PointEvaluation", "ComponentPointEvaluation", "PointDerivative", "PointNormalDerivative",
  "PointNormalSecondDerivative", "PointNormalEvaluation", "PointEdgeTangentEvaluation", "PointFaceTangentEvaluation",
  "PointScaledNormalEvaluation", "PointwiseInnerProductEvaluation"}
LegendreKinds == {"IntegralLegendreNormalMoment", "IntegralLegendreTangentialMoment",
  "IntegralLegendreNormalNormalMoment", "IntegralLegendreNormalTangentialMoment"}
CellKinds == {"PointEvaluation", "ComponentPointEvaluation", "PointDerivative", "IntegralMoment", "ComponentMoment",
  "IntegralMomentOfDivergence", "IntegralMomentOfTensorDivergence", "FrobeniusIntegralMoment",
  "PointwiseInnerProductEvaluation", "TensorBidirectionalMomentInnerProductEvaluation"}
EdgeKinds == {"PointEdgeTangentEvaluation", "IntegralMomentOfEdgeTangentEvaluation"}
FacetMomentKinds == {"IntegralMomentOfNormalDerivative", "IntegralMomentOfFaceTangentEvaluation", "MonkIntegralMoment",
  "IntegralMomentOfScaledNormalEvaluation", "IntegralMomentOfNormalEvaluation", "IntegralMomentOfTangentialEvaluation",
  "IntegralMomentOfNormalNormalEvaluation"}
FunKinds == PointKinds \union LegendreKinds \union CellKinds \union EdgeKinds \union FacetMomentKinds

SymKinds == {"PointwiseInnerProductEvaluation", "TensorBidirectionalMomentInnerProductEvaluation"}
(* the value shape of the fields a functional takes *)
FShape(q) == LET d == UnitD(q.c) IN
  CASE q.f \in {"PointEvaluation", "PointDerivative", "PointNormalDerivative", "PointNormalSecondDerivative", "IntegralMoment",
                "IntegralMomentOfNormalDerivative"} -> <<>>
    [] q.f \in {"IntegralLegendreNormalNormalMoment", "IntegralLegendreNormalTangentialMoment", "IntegralMomentOfTensorDivergence",
                "IntegralMomentOfNormalNormalEvaluation"} \union SymKinds -> << d, d >>
    [] q.f \in {"ComponentPointEvaluation", "ComponentMoment"} -> << q.w[1] >>
    [] q.f = "FrobeniusIntegralMoment" -> q.w
    [] OTHER -> << d >>
(* dimension of the entity it lives on *)
FDimOf(q) == LET d == UnitD(q.c) IN
  CASE q.f \in CellKinds -> d [] q.f \in EdgeKinds -> 1 [] OTHER -> d - 1
FDOrder(q) == CASE q.f \in {"PointDerivative"} -> SumSeq(q.a)
                [] q.f \in {"PointNormalDerivative", "IntegralMomentOfNormalDerivative", "IntegralMomentOfDivergence", "IntegralMomentOfTensorDivergence"} -> 1
                [] q.f = "PointNormalSecondDerivative" -> 2
                [] OTHER -> 0
=============================================================================
