------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The elements FIAT offers, as terms, and what each of them promises:      *)
(* cell, dofs per entity, value shape, pullback, form degree, degrees.      *)
(*                                                                         *)
(* A term is a record [f, c, k, v, p]: family or combinator f, cell name c, *)
(* degree k, variant v and, for combinators, the sequence p of parts.       *)
(***************************************************************************)
EXTENDS Cells

Prim(f, c, k, v) == [f |-> f, c |-> c, k |-> k, v |-> v, p |-> <<>>]
El(f, c, k)      == Prim(f, c, k, "")
Op(f, parts)     == [f |-> f, c |-> "", k |-> 0, v |-> "", p |-> parts]
Res(t, dom)      == [f |-> "res", c |-> "", k |-> 0, v |-> dom, p |-> <<t>>]

P(d, k) == Choose(k + d, d)                  \* dim of polynomials of degree k in d variables, 0 if k < 0
None == -1

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxSeq(Tail(s)))

Composites == {"tp", "flat", "enr", "nod", "res", "brk", "mix", "hdiv", "hcurl"}
IsComposite(t) == t.f \in Composites

RECURSIVE CellT(_)
CellT(t) ==
  CASE t.f = "tp"   -> Prod(<<CellT(t.p[1]), CellT(t.p[2])>>)
    [] t.f = "flat" -> Flat(CellT(t.p[1]))
    [] IsComposite(t) -> CellT(t.p[1])
    [] OTHER -> CellOf(t.c)
Dm(t) == Dim(CellT(t))
IsSimplexCell(c) == c.k = "simplex"
IsBox(c) == c = Quad \/ c = Hex

-----------------------------------------------------------------------------
(* dofs per j-dimensional entity of a simplex (or box) of dimension d, for  *)
(* the elementary families                                                  *)
N1int(d, k) ==                                \* dim of the lowest-numbered Nedelec space N1_k on a d-simplex
  IF k <= 0 THEN 0 ELSE
  IF d = 2 THEN k*(k+2) ELSE (k*(k+2)*(k+3)) \div 2
RTdim(d, k) == IF k <= 0 THEN 0 ELSE d * P(d, k-1) + P(d-1, k-1)

KMV2 == << <<1,0,0>>, <<1,1,1>>, <<1,2,3>>, <<1,3,6>>, <<1,4,15>> >>
KMV3 == << <<1,0,0,0>>, <<1,1,1,1>>, <<1,2,3,4>> >>
KMVdeg(d, k) == IF d = 2 THEN <<1,3,4,5,7>>[k] ELSE <<1,4,5>>[k]

PrimCount(f, d, k, j) ==
  CASE f \in {"CG", "Bern", "GLL"} -> P(j, k-1-j)            \* C(k-1, j) interior points
    [] f \in {"P0", "DG", "GL", "GR", "Taylor", "DPC"} -> IF j = d THEN P(d, IF f = "P0" THEN 0 ELSE k) ELSE 0
    [] f = "CR" -> IF j = d-1 THEN 1 ELSE 0
    [] f = "RT" -> IF j = d-1 THEN P(d-1, k-1) ELSE IF j = d THEN d * P(d, k-2) ELSE 0
    [] f = "DRT" -> IF j = d THEN RTdim(d, k) ELSE 0
    [] f = "BDM" -> IF j = d-1 THEN P(d-1, k) ELSE IF j = d THEN (IF d = 1 THEN 0 ELSE N1int(d, k-1)) ELSE 0
    [] f = "N1" -> IF j = 1 THEN k ELSE IF j = 2 THEN k*(k-1) ELSE IF j = 3 THEN (k*(k-1)*(k-2)) \div 2 ELSE 0
    [] f = "N2" -> IF j = 1 THEN k+1 ELSE IF j = 2 THEN (k-1)*(k+1)
                   ELSE IF j = 3 THEN RTdim(3, k-2) ELSE 0
    [] f = "BDFM" -> IF j = 1 THEN 2 ELSE IF j = 2 THEN 3 ELSE 0
    [] f = "Regge" -> IF j = 0 THEN 0 ELSE ((j*(j+1)) \div 2) * P(j, k-j+1)
    [] f = "HHJ" -> IF j = 1 THEN k+1 ELSE IF j = 2 THEN 3*P(2, k-1) ELSE 0
    [] f = "Herm" -> IF j = 0 THEN d+1 ELSE IF j = 2 THEN 1 ELSE 0
    [] f = "Arg" -> IF j = 0 THEN 6 ELSE IF j = 1 THEN 1 + 2*(k-5) ELSE P(2, k-6)
    [] f = "QArg" -> IF j = 0 THEN 6 ELSE IF j = 1 THEN 1 ELSE 0
    [] f = "Bell" -> IF j = 0 THEN 6 ELSE IF j = 1 THEN 1 ELSE 0
    [] f = "Morley" -> IF j = 0 THEN 1 ELSE IF j = 1 THEN 1 ELSE 0
    [] f = "KMV" -> (IF d = 2 THEN KMV2[k] ELSE KMV3[k])[j+1]
    [] f = "AWc" -> <<3, 4, 9>>[j+1]
    [] f = "AWnc" -> <<0, 5, 3>>[j+1]
    [] f = "MTW" -> <<0, 5, 5>>[j+1]
    [] f = "Bub" -> IF j = d THEN P(d, k-1-d) ELSE 0
    [] f = "FBub" -> IF j = d-1 THEN P(d-1, k-d) ELSE 0
    [] f = "S" -> CASE j = 0 -> 1 [] j = 1 -> k-1 [] j = 2 -> P(2, k-4) [] OTHER -> P(3, k-6)

(* the name a family or combination is known by *)
KnownAs(f) ==
  CASE f = "CG" -> "Lagrange" [] f = "DG" -> "Discontinuous Lagrange" [] f = "Bern" -> "Bernstein" [] f = "GLL" -> "Gauss-Lobatto-Legendre"
    [] f = "GL" -> "Gauss-Legendre" [] f = "GR" -> "Gauss-Radau" [] f = "Taylor" -> "Discontinuous Taylor" [] f = "CR" -> "Crouzeix-Raviart"
    [] f = "RT" -> "Raviart-Thomas" [] f = "DRT" -> "Discontinuous Raviart-Thomas" [] f = "BDM" -> "Brezzi-Douglas-Marini"
    [] f = "BDFM" -> "Brezzi-Douglas-Fortin-Marini" [] f = "N1" -> "Nedelec 1st kind H(curl)" [] f = "N2" -> "Nedelec 2nd kind H(curl)"
    [] f = "HHJ" -> "Hellan-Herrmann-Johnson" [] f = "Herm" -> "Hermite" [] f = "Arg" -> "Argyris" [] f = "QArg" -> "Quintic Argyris"
    [] f = "KMV" -> "Kong-Mulder-Veldhuizen" [] f = "AWc" -> "Conforming Arnold-Winther" [] f = "AWnc" -> "Nonconforming Arnold-Winther"
    [] f = "MTW" -> "Mardal-Tai-Winther" [] f = "Bub" -> "Bubble" [] f = "FBub" -> "FacetBubble" [] f = "Trace" -> "HDiv Trace"
    [] f \in {"S", "DPC", "P0", "Bell", "Morley", "Regge"} -> f
    [] f = "enr" -> "EnrichedElement" [] f = "nod" -> "NodalEnrichedElement" [] f = "tp" -> "TensorProductElement" [] f = "brk" -> "BrokenElement"
    [] OTHER -> ""

(* which elementary elements exist *)
SimplexNames == {"interval", "triangle", "tetrahedron"}
BoxNames == {"interval", "quadrilateral", "hexahedron"}
Exists(f, c, k) ==
  LET d == Dim(CellOf(c)) IN
  CASE f \in {"CG", "Bern"} -> c \in SimplexNames /\ k >= 1
    [] f \in {"DG", "Taylor"} -> c \in SimplexNames /\ k >= 0
    [] f = "P0" -> c \in SimplexNames /\ k = 0
    [] f = "GLL" -> c = "interval" /\ k >= 1
    [] f \in {"GL", "GR"} -> c = "interval" /\ k >= 0
    [] f = "CR" -> c \in SimplexNames /\ k = 1
    [] f \in {"RT", "DRT"} -> c \in {"triangle", "tetrahedron"} /\ k >= 1
    [] f = "BDM" -> c \in {"triangle", "tetrahedron"} /\ k >= 1
    [] f \in {"N1", "N2"} -> c \in {"triangle", "tetrahedron"} /\ k >= 1
    [] f = "BDFM" -> c = "triangle" /\ k = 2
    [] f = "Regge" -> c \in {"triangle", "tetrahedron"} /\ k >= 0
    [] f = "HHJ" -> c = "triangle" /\ k >= 0
    [] f = "Herm" -> c \in SimplexNames /\ k = 3
    [] f = "Arg" -> c = "triangle" /\ k >= 5
    [] f \in {"QArg", "Bell"} -> c = "triangle" /\ k = 5
    [] f = "Morley" -> c = "triangle" /\ k = 2
    [] f = "KMV" -> (c = "triangle" /\ k \in 1..5) \/ (c = "tetrahedron" /\ k \in 1..3)
    [] f = "AWc" -> c = "triangle" /\ k = 3
    [] f = "AWnc" -> c = "triangle" /\ k = 2
    [] f = "MTW" -> c = "triangle" /\ k = 3
    [] f = "Bub" -> c \in SimplexNames /\ k >= d + 1
    [] f = "FBub" -> c \in SimplexNames /\ k >= d
    [] f = "S" -> c \in BoxNames /\ k >= 1
    [] f = "DPC" -> c \in BoxNames /\ k >= 0
    [] f = "Trace" -> k >= 0 /\ c \in {"triangle", "tetrahedron", "quadrilateral", "triangle * interval",
                                        "interval * interval", "quadrilateral * interval"}
    [] OTHER -> FALSE

(* HDiv trace on products of cells: the degree is a pair there *)
TraceTup(v) == CASE v = "0,0" -> <<0,0>> [] v = "1,1" -> <<1,1>> [] v = "1,0" -> <<1,0>> [] v = "0,1" -> <<0,1>>
                 [] v = "1,2" -> <<1,2>> [] v = "2,1" -> <<2,1>> [] v = "2,2" -> <<2,2>> [] v = "0,2" -> <<0,2>>
                 [] v = "2,0" -> <<2,0>> [] OTHER -> <<0,0>>
TraceTupOf(t) == IF t.v = "" THEN << t.k, t.k >> ELSE TraceTup(t.v)      \* a single degree goes to both factors
DQdim(c, k) == IF c.k = "simplex" THEN P(c.d, k) ELSE LET w == Dim(c) IN (k+1)^w
TraceCount(t, code) ==
  LET c == CellT(t)  d == Dim(c) IN
  IF SumSeq(code) # d - 1 THEN 0
  ELSE IF c.k = "simplex" THEN P(d - 1, t.k)
  ELSE IF c.k = "flat" THEN (t.k + 1)^(d - 1)
  ELSE LET parts == SplitCode(c.c, code)
           degs == TraceTupOf(t)
       IN ProdSeq([i \in 1..2 |-> DQdim(EntCell(c.c[i], parts[i]), degs[i])])

-----------------------------------------------------------------------------
(* restriction domains *)
DomDim(dom, d) == CASE dom = "interior" -> d [] dom = "vertex" -> 0 [] dom = "edge" -> 1 [] dom = "face" -> 2
                    [] dom = "facet" -> d - 1
(* "interior": the cell's own dofs; the others: the closure of the entities  *)
InDomain(dom, d, j) == IF dom = "interior" THEN j = d ELSE j <= DomDim(dom, d)

RECURSIVE NPer(_, _, _)                      \* dofs of term t on entity e of code
NPer(t, code, e) ==
  CASE t.f = "tp" ->
         LET cs == <<CellT(t.p[1]), CellT(t.p[2])>>
             parts == SplitCode(cs, code)
             ns == SplitNum([i \in 1..2 |-> NEnts(cs[i], parts[i])], e)
         IN NPer(t.p[1], parts[1], ns[1]) * NPer(t.p[2], parts[2], ns[2])
    [] t.f = "flat" -> LET u == Unflatten(CellT(t.p[1]), code[1], e) IN NPer(t.p[1], u[1], u[2])
    [] t.f \in {"enr", "nod", "mix"} -> SumSeq([i \in 1..Len(t.p) |-> NPer(t.p[i], code, e)])
    [] t.f = "res" -> IF InDomain(t.v, Dm(t), SumSeq(code)) THEN NPer(t.p[1], code, e) ELSE 0
    [] t.f = "brk" -> IF SumSeq(code) = Dm(t)
                      THEN LET el == EntList(CellT(t)) IN
                           SumSeq([i \in 1..Len(el) |-> NPer(t.p[1], el[i][1], el[i][2])])
                      ELSE 0
    [] t.f \in {"hdiv", "hcurl"} -> NPer(t.p[1], code, e)
    [] t.f = "Trace" -> TraceCount(t, code)
    [] OTHER -> PrimCount(t.f, Dm(t), t.k, code[1])

Counts(t) == LET el == EntList(CellT(t)) IN [i \in 1..Len(el) |-> NPer(t, el[i][1], el[i][2])]
SpaceDim(t) == SumSeq(Counts(t))

-----------------------------------------------------------------------------
RECURSIVE VShape(_)
VShape(t) ==
  LET d == Dm(t) IN
  CASE t.f \in {"RT", "DRT", "BDM", "BDFM", "MTW", "N1", "N2", "hdiv", "hcurl"} -> <<d>>
    [] t.f \in {"Regge", "HHJ", "AWc", "AWnc"} -> <<d, d>>
    [] t.f = "tp" -> IF VShape(t.p[1]) # <<>> THEN VShape(t.p[1]) ELSE VShape(t.p[2])
    [] t.f = "mix" -> << SumSeq([i \in 1..Len(t.p) |-> ProdSeq(VShape(t.p[i]))]) >>
    [] IsComposite(t) -> VShape(t.p[1])
    [] OTHER -> <<>>
NComp(t) == ProdSeq(VShape(t))

RECURSIVE MapName(_)                          \* pullback (not for mixed elements)
MapName(t) ==
  CASE t.f \in {"RT", "DRT", "BDM", "BDFM", "MTW", "hdiv"} -> "contravariant piola"
    [] t.f \in {"N1", "N2", "hcurl"} -> "covariant piola"
    [] t.f = "Regge" -> "double covariant piola"
    [] t.f \in {"HHJ", "AWc", "AWnc"} -> "double contravariant piola"
    [] t.f = "tp" -> IF MapName(t.p[1]) # "affine" THEN MapName(t.p[1]) ELSE MapName(t.p[2])
    [] IsComposite(t) -> MapName(t.p[1])
    [] OTHER -> "affine"
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE Maps(_)
Maps(t) == IF t.f = "mix" THEN Flatten([i \in 1..Len(t.p) |-> Maps(t.p[i])])
           ELSE IF t.f \in {"enr"} THEN Flatten([i \in 1..Len(t.p) |-> Maps(t.p[i])])
           ELSE Rep(MapName(t), SpaceDim(t))

(* degree of the form the element discretises; None where it has none *)
RECURSIVE FormDeg(_)
FormDeg(t) ==
  LET d == Dm(t) IN
  CASE t.f \in {"CG", "Bern", "GLL", "KMV", "S", "Bub", "FBub"} -> 0
    [] t.f \in {"P0", "DG", "GL", "GR", "Taylor", "DPC", "brk"} -> d
    [] t.f \in {"RT", "BDM", "BDFM", "hdiv", "Trace"} -> d - 1
    [] t.f \in {"N1", "N2", "hcurl"} -> 1
    [] t.f = "tp" -> IF FormDeg(t.p[1]) = None \/ FormDeg(t.p[2]) = None THEN None
                     ELSE FormDeg(t.p[1]) + FormDeg(t.p[2])
    [] t.f \in {"flat", "res", "nod"} -> FormDeg(t.p[1])
    [] t.f = "enr" -> LET s == [i \in 1..Len(t.p) |-> FormDeg(t.p[i])] IN
                      IF \E i \in 1..Len(s) : s[i] = None THEN None ELSE MaxSeq(s)
    [] OTHER -> None

(* embedding polynomial degree (None where the element has no degree())      *)
RECURSIVE PDeg(_)
PDeg(t) ==
  CASE t.f = "KMV" -> KMVdeg(Dm(t), t.k)
    [] t.f = "S" -> IF t.c = "interval" THEN t.k ELSE t.k + 1
    [] t.f \in {"P0"} -> 0
    [] t.f = "Trace" /\ t.v # "" -> MaxSeq(TraceTup(t.v))
    [] t.f \in {"Bub", "FBub"} -> t.k
    [] t.f = "tp" -> Max2(PDeg(t.p[1]), PDeg(t.p[2]))
    [] t.f = "mix" -> None
    [] t.f \in {"enr", "nod"} -> MaxSeq([i \in 1..Len(t.p) |-> PDeg(t.p[i])])
    [] IsComposite(t) -> PDeg(t.p[1])
    [] OTHER -> t.k

(* is the basis dual to the element's own functionals? *)
RECURSIVE Nodal(_)
Nodal(t) ==
  CASE t.f = "Bern" -> FALSE
    [] t.f = "S" -> t.c = "interval"
    [] t.f = "enr" -> FALSE
    [] t.f = "nod" -> TRUE
    [] t.f \in {"tp", "mix"} -> \A i \in 1..Len(t.p) : Nodal(t.p[i])
    [] t.f \in {"flat", "hdiv", "hcurl", "brk"} -> Nodal(t.p[1])
    [] t.f = "res" -> TRUE
    [] OTHER -> TRUE

(* highest total polynomial degree of a component, which bounds the degree   *)
(* along any line                                                            *)
RECURSIVE LineDeg(_)
LineDeg(t) ==
  CASE t.f = "tp" -> LineDeg(t.p[1]) + LineDeg(t.p[2])
    [] t.f \in {"enr", "nod", "mix"} -> MaxSeq([i \in 1..Len(t.p) |-> LineDeg(t.p[i])])
    [] IsComposite(t) -> LineDeg(t.p[1])
    [] OTHER -> PDeg(t)

(* highest degree along a coordinate line on which one factor varies         *)
RECURSIVE FactorDeg(_)
FactorDeg(t) ==
  CASE t.f \in {"tp", "enr", "nod", "mix"} -> MaxSeq([i \in 1..Len(t.p) |-> FactorDeg(t.p[i])])
    [] IsComposite(t) -> FactorDeg(t.p[1])
    [] OTHER -> PDeg(t)
TraceDeg(t) == Max2(1, FactorDeg(t))

-----------------------------------------------------------------------------
(* does every functional of the element say what it evaluates? products do   *)
(* so for point evaluations only                                             *)
RECURSIVE PointDual(_)
PointDual(t) ==
  CASE t.f \in {"Herm", "Arg", "QArg", "Bell", "Morley", "Taylor", "Bern", "Trace", "enr"} -> FALSE
    [] t.f = "S" -> t.c = "interval"
    [] t.f \in {"tp", "mix", "nod"} -> \A i \in 1..Len(t.p) : PointDual(t.p[i])
    [] t.f \in {"hdiv", "hcurl"} -> MapName(t.p[1]) # "affine" /\ PointDual(t.p[1])
    [] IsComposite(t) -> PointDual(t.p[1])
    [] OTHER -> t.v = ""
RECURSIVE DualDefined(_)
DualDefined(t) ==
  CASE t.f = "tp" -> VShape(t) = <<>> /\ PointDual(t)   \* of a vector factor: the functionals of the wrapped field
    [] t.f = "enr" -> FALSE
    [] t.f \in {"mix", "nod"} -> \A i \in 1..Len(t.p) : DualDefined(t.p[i])
    [] t.f \in {"hdiv", "hcurl"} -> MapName(t.p[1]) # "affine" /\ PointDual(t.p[1])
    [] IsComposite(t) -> DualDefined(t.p[1])
    [] OTHER -> Nodal(t) /\ t.f # "Trace"

-----------------------------------------------------------------------------
(* Which trace the conforming families keep continuous.                     *)
RECURSIVE TraceKind(_)
TraceKind(t) ==
  CASE t.f \in {"CG", "GLL", "Bern", "KMV", "S", "Herm", "Bub", "FBub"} -> "value"
    [] t.f \in {"Arg", "QArg", "Bell"} -> "gradient"
    [] t.f \in {"RT", "BDM", "BDFM", "hdiv"} -> "normal"
    [] t.f \in {"N1", "N2", "hcurl"} -> "tangential"
    [] t.f = "MTW" -> "normal"
    [] t.f = "Regge" -> "tt"
    [] t.f \in {"HHJ", "AWnc"} -> "nn"
    [] t.f = "AWc" -> "sigma n"
    [] t.f \in {"flat", "res"} -> TraceKind(t.p[1])
    [] t.f \in {"enr", "nod"} -> LET k == TraceKind(t.p[1]) IN
                        IF \A i \in 1..Len(t.p) : TraceKind(t.p[i]) = k THEN k ELSE
                        IF \A i \in 1..Len(t.p) : TraceKind(t.p[i]) \in {k, "value"} THEN k ELSE "none"
    [] t.f = "tp" -> IF VShape(t) = <<>> THEN "value" ELSE "none"
    [] OTHER -> "none"
(* is the value trace claimed on the entities of this dimension? products   *)
(* are as continuous as their factors: the discontinuous ones only inside   *)
RECURSIVE Claimed(_, _, _)
Claimed(t, code, e) ==
  CASE t.f = "tp" -> LET cs == <<CellT(t.p[1]), CellT(t.p[2])>>
                         parts == SplitCode(cs, code)
                         ns == SplitNum([i \in 1..2 |-> NEnts(cs[i], parts[i])], e) IN
                     \A i \in 1..2 : SumSeq(parts[i]) = Dm(t.p[i]) \/
                        (TraceKind(t.p[i]) \in {"value", "gradient"} /\ Claimed(t.p[i], parts[i], ns[i]))
    [] t.f = "flat" -> LET u == Unflatten(CellT(t.p[1]), code[1], e) IN Claimed(t.p[1], u[1], u[2])
    [] t.f \in {"enr", "nod"} -> \A i \in 1..Len(t.p) : Claimed(t.p[i], code, e)
    [] t.f = "res" -> Claimed(t.p[1], code, e)
    [] TraceKind(t) \in {"value", "gradient"} -> TRUE
    [] TraceKind(t) \in {"normal", "nn", "sigma n"} -> SumSeq(code) = Dm(t) - 1
    [] TraceKind(t) \in {"tangential", "tt"} -> SumSeq(code) >= 1
    [] OTHER -> FALSE


(* tables carry, for "gradient", the three rows value, d/dx, d/dy in a row  *)
TraceRep(kind) == IF kind = "gradient" THEN 3 ELSE 1
(* families whose traces, seen from an entity, do not depend on the cell the *)
(* entity is seen from: all but those with derivative dofs                   *)
RECURSIVE Glues(_)
Glues(t) ==
  CASE t.f \in {"CG", "GLL", "Bern", "KMV", "S", "RT", "BDM", "BDFM", "N1", "N2", "Regge", "HHJ", "Bub", "FBub",
                "P0", "DG", "GL", "GR", "DPC"} -> TRUE
    [] t.f \in {"mix", "brk"} -> FALSE
    [] IsComposite(t) -> \A i \in 1..Len(t.p) : Glues(t.p[i])
    [] OTHER -> FALSE
Claims(t, code, e) == TraceKind(t) # "none" /\ SumSeq(code) < Dm(t) /\ Claimed(t, code, e)
ClaimedEnts(t) == SelectSeq(EntList(CellT(t)), LAMBDA s : Claims(t, s[1], s[2]))

(* Entities seen alike: those of one dimension code; on flattened cells the  *)
(* directions are alike only for elements that treat them alike.            *)
RECURSIVE Leaves(_)
Leaves(t) == IF t.f = "tp" THEN UNION { Leaves(t.p[i]) : i \in 1..2 } ELSE {t}
Isotropic(t) ==
  LET u == t.p[1] IN
  \/ u.f = "tp" /\ Cardinality(Leaves(u)) = 1
  \/ /\ u.f = "enr" /\ Len(u.p) = 2 /\ u.p[1].f \in {"hdiv", "hcurl"} /\ u.p[2].f = u.p[1].f
     /\ Leaves(u.p[1].p[1]) = Leaves(u.p[2].p[1]) /\ u.p[1].p[1].p[1] = u.p[2].p[1].p[2] /\ u.p[1].p[1].p[2] = u.p[2].p[1].p[1]
RECURSIVE AlikeCode(_, _, _)
AlikeCode(t, code, e) ==
  CASE t.f = "tp" -> LET cs == <<CellT(t.p[1]), CellT(t.p[2])>>
                         parts == SplitCode(cs, code)
                         ns == SplitNum([i \in 1..2 |-> NEnts(cs[i], parts[i])], e) IN
                     << AlikeCode(t.p[1], parts[1], ns[1]), AlikeCode(t.p[2], parts[2], ns[2]) >>
    [] t.f = "flat" /\ ~Isotropic(t) -> LET u == Unflatten(CellT(t.p[1]), code[1], e) IN AlikeCode(t.p[1], u[1], u[2])
    [] t.f = "flat" -> code
    [] IsComposite(t) -> [i \in 1..Len(t.p) |-> AlikeCode(t.p[i], code, e)]
    [] OTHER -> code
=============================================================================
