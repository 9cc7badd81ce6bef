------------------------------- MODULE Algebra -------------------------------
(***************************************************************************)
(* The algebra of elements as a transition system: start from an elementary *)
(* element and apply the combinators FIAT offers (tensor product, dimension *)
(* flattening, H(div)/H(curl) of a product, enrichment, nodal enrichment,   *)
(* restriction, breaking, mixing) wherever FIAT documents them as           *)
(* applicable.  TLC explores every reachable term within the bounds, checks *)
(* that what the specification promises of each term is coherent, and       *)
(* prints each term: those are the scenarios the conformance checks run     *)
(* against the real code.                                                  *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
Deeper == Tier = "thorough"
MaxOps == 4
MaxDim == IF Deeper THEN 260 ELSE 150            \* largest space explored

(* degrees explored per family and cell: up to BaseHi in compositions, and  *)
(* up to DegHi on their own                                                 *)
BaseHi(f, c) ==
  LET d == Dim(CellOf(c)) IN
  CASE f \in {"CG", "DG"} -> IF Deeper THEN (IF d = 1 THEN 9 ELSE IF d = 2 THEN 7 ELSE 5)
                             ELSE (IF d = 1 THEN 7 ELSE IF d = 2 THEN 5 ELSE 4)
    [] f = "Bern" -> (IF d = 1 THEN 6 ELSE IF d = 2 THEN 5 ELSE 4) + (IF Deeper THEN 1 ELSE 0)
    [] f \in {"GLL", "GL", "GR"} -> IF Deeper THEN 10 ELSE 8
    [] f = "Taylor" -> (IF d = 1 THEN 4 ELSE 3) + (IF Deeper THEN 1 ELSE 0)
    [] f \in {"RT", "DRT", "BDM", "N1", "N2"} -> (IF d = 2 THEN 4 ELSE 3) + (IF Deeper THEN 1 ELSE 0)
    [] f = "Regge" -> (IF d = 2 THEN 3 ELSE 2) + (IF Deeper THEN 1 ELSE 0)
    [] f = "HHJ" -> IF Deeper THEN 4 ELSE 3
    [] f = "Arg" -> IF Deeper THEN 7 ELSE 6
    [] f \in {"Bub", "FBub"} -> (IF d = 1 THEN 5 ELSE IF d = 2 THEN 5 ELSE 4) + (IF Deeper THEN 1 ELSE 0)
    [] f = "S" -> (IF d = 1 THEN 4 ELSE IF d = 2 THEN 6 ELSE 4) + (IF Deeper THEN 1 ELSE 0)
    [] f = "DPC" -> (IF d = 3 THEN 3 ELSE 4) + (IF Deeper THEN 1 ELSE 0)
    [] f = "Trace" -> IF c \in {"triangle", "quadrilateral"} THEN (IF Deeper THEN 4 ELSE 3)
                      ELSE IF c = "tetrahedron" THEN (IF Deeper THEN 3 ELSE 2) ELSE -1
    [] OTHER -> 5
DegHi(f, c) ==
  LET d == Dim(CellOf(c)) IN
  CASE f \in {"CG", "DG", "GLL", "GL", "GR"} -> IF d = 1 THEN (IF Deeper THEN 12 ELSE 10) ELSE BaseHi(f, c) + (IF d = 2 THEN 1 ELSE 0)
    [] f = "Bern" -> BaseHi(f, c) + (IF d = 1 THEN 2 ELSE 1)
    [] f \in {"RT", "DRT", "BDM", "N1", "N2", "Regge"} -> BaseHi(f, c) + (IF d = 2 THEN 1 ELSE 0)
    [] f \in {"HHJ", "Arg", "Taylor", "Bub", "FBub", "DPC"} -> BaseHi(f, c) + 1
    [] f = "Trace" -> IF BaseHi(f, c) < 0 THEN -1 ELSE BaseHi(f, c) + 1
    [] f = "S" -> BaseHi(f, c) + (IF d = 1 THEN 0 ELSE 2)
    [] OTHER -> BaseHi(f, c)
Based(t) == IF Len(t.p) > 0 THEN TRUE ELSE t.k <= BaseHi(t.f, t.c)

Fams == {"P0", "CG", "DG", "Bern", "GLL", "GL", "GR", "Taylor", "CR", "RT", "DRT", "BDM", "BDFM", "N1", "N2",
         "Regge", "HHJ", "Herm", "Arg", "QArg", "Bell", "Morley", "KMV", "AWc", "AWnc", "MTW", "Bub", "FBub",
         "S", "DPC", "Trace"}
PrimCells == {"interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"}
Plain == { t \in { El(f, c, k) : f \in Fams, c \in PrimCells, k \in 0..12 } :
             /\ Exists(t.f, t.c, t.k)
             /\ t.k <= DegHi(t.f, t.c) }
(* degrees of freedom may be point values or integral moments *)
HasVariant == {"RT", "BDM", "N1", "N2"}
VariantNames(k) == {"integral(" \o ToString(k + 1) \o ")", "integral(" \o ToString(k + 3) \o ")"}
                   \union (IF k <= 2 THEN {"integral"} ELSE {})
Variants == UNION { { [t EXCEPT !.v = v] : v \in VariantNames(t.k) } : t \in { u \in Plain : u.f \in HasVariant } }
ProdTraces == { Prim("Trace", c, 0, v) : c \in {"triangle * interval", "interval * interval", "quadrilateral * interval"},
                  v \in {"0,0", "1,0", "0,1", "1,2", "2,1"} }
              \union { El("Trace", c, k) : c \in {"triangle * interval", "interval * interval", "quadrilateral * interval"}, k \in 0..2 }
Prims == { t \in Plain \union Variants \union ProdTraces : SpaceDim(t) <= MaxDim /\ SpaceDim(t) > 0 }

-----------------------------------------------------------------------------
VARIABLES term, nops
vars == <<term, nops>>

(* applicability of the combinators *)
IntervalScalars == { El("CG", "interval", 1), El("CG", "interval", 2), El("DG", "interval", 0), El("DG", "interval", 1),
                     El("GLL", "interval", 3), El("GL", "interval", 2) }
TriScalars == { El("CG", "triangle", 1), El("CG", "triangle", 2), El("DG", "triangle", 1), El("DG", "triangle", 0) }
TriVectors == { El("RT", "triangle", 1), El("RT", "triangle", 2), El("BDM", "triangle", 1), El("N1", "triangle", 1),
                El("N1", "triangle", 2), El("N2", "triangle", 1) }
QuadTp(a, b) == Op("tp", <<a, b>>)
QuadScalars == { Op("flat", << QuadTp(El("CG", "interval", 1), El("CG", "interval", 2)) >>),
                 Op("flat", << QuadTp(El("DG", "interval", 1), El("DG", "interval", 0)) >>) }
TpLeft == { El("CG", "interval", 1), El("CG", "interval", 2), El("CG", "interval", 3), El("DG", "interval", 0),
            El("DG", "interval", 1), El("DG", "interval", 2), El("GLL", "interval", 2), El("GL", "interval", 1),
            El("GR", "interval", 2), El("Herm", "interval", 3), El("P0", "interval", 0),
            El("CG", "triangle", 1), El("CG", "triangle", 2), El("CG", "triangle", 3), El("DG", "triangle", 0),
            El("DG", "triangle", 1), El("DG", "triangle", 2), El("P0", "triangle", 0), El("CR", "triangle", 1),
            El("RT", "triangle", 1), El("RT", "triangle", 2), El("BDM", "triangle", 1), El("BDFM", "triangle", 2),
            El("N1", "triangle", 1), El("N1", "triangle", 2), El("N2", "triangle", 1), El("N2", "triangle", 2), El("BDM", "triangle", 2),
            Prim("RT", "triangle", 1, "integral(2)"), Prim("N1", "triangle", 2, "integral(3)"),
            El("S", "quadrilateral", 2), El("DPC", "quadrilateral", 1) }
IsTp(u) == u.f = "tp"
Scalar(u) == VShape(u) = <<>>
DerivDual(u) == u.f \in {"Herm", "Arg", "QArg", "Bell", "Morley", "Taylor"}

ProductPart(u) == u \in TpLeft \/ u \in QuadScalars
                  \/ (u.f = "tp" /\ u.p[1].c = "interval" /\ u.p[2].c = "interval"
                      /\ u.p[1] \in {El("CG", "interval", 1), El("CG", "interval", 2), El("DG", "interval", 1)}
                      /\ u.p[2] \in {El("CG", "interval", 2), El("DG", "interval", 0)})
                  \/ (u.f = "flat" /\ u.p[1].f \in {"hdiv", "hcurl"} /\ SpaceDim(u) <= 6
                      /\ u.p[1].p[1].p[1] \in {El("CG", "interval", 1), El("DG", "interval", 0), El("CG", "interval", 2)}
                      /\ u.p[1].p[1].p[2] \in {El("CG", "interval", 1), El("DG", "interval", 0), El("CG", "interval", 2)})
RightParts == {El("CG", "interval", 1), El("CG", "interval", 2), El("DG", "interval", 0), El("DG", "interval", 1), El("GL", "interval", 2)}
(* point-evaluation factors only where the dual of the product is defined *)
(* FIAT builds the functionals of a product from those of its factors, and *)
(* refuses a vector-valued right factor (Unsupported.tla has the refusals)  *)
CanTensor(a, b) == /\ Dm(a) + Dm(b) <= 3
                   /\ Scalar(b)
                   /\ SpaceDim(a) * SpaceDim(b) <= MaxDim
TensorRight == /\ ProductPart(term)
               /\ \E b \in RightParts : CanTensor(term, b) /\ term' = Op("tp", <<term, b>>)
TensorLeft  == /\ term.f \in {"CG", "DG"} /\ term.c = "triangle" /\ term.k <= 2 /\ term.v = ""
               /\ \E a \in {El("CG", "interval", 1), El("CG", "interval", 2), El("DG", "interval", 0), El("DG", "interval", 1)} :
                    CanTensor(a, term) /\ term' = Op("tp", <<a, term>>)

RECURSIVE AllIntervals(_)
AllIntervals(c) == CASE c.k = "simplex" -> c.d = 1 [] c.k = "flat" -> TRUE
                     [] OTHER -> \A i \in 1..Len(c.c) : AllIntervals(c.c[i])
(* dimensions may be flattened on products of intervals; a quadrilateral factor already is *)
FlattenDims == /\ term.f \in {"tp", "hdiv", "hcurl", "enr"} /\ AllIntervals(CellT(term)) /\ CellT(term).k = "prod"
               /\ term' = Op("flat", <<term>>)

FDsum(u) == FormDeg(u.p[1]) + FormDeg(u.p[2])
HasFD(u) == FormDeg(u.p[1]) # None /\ FormDeg(u.p[2]) # None
(* one factor is a 0-form on an interval, or a (co/contra)variant plane field *)
DivOK(u) == IF MapName(u) = "affine"
            THEN \E i \in 1..2 : Dm(u.p[i]) = 1 /\ FormDeg(u.p[i]) = 0 /\ FormDeg(u.p[3-i]) = Dm(u.p[3-i])
            ELSE \E i \in 1..2 : MapName(u.p[i]) # "affine" /\ Dm(u.p[i]) = 2 /\ FormDeg(u.p[3-i]) = Dm(u.p[3-i])
CurlOK(u) == IF MapName(u) = "affine"
             THEN \E i \in 1..2 : Dm(u.p[i]) = 1 /\ FormDeg(u.p[i]) = 1 /\ FormDeg(u.p[3-i]) = 0
             ELSE \E i \in 1..2 : MapName(u.p[i]) # "affine" /\ Dm(u.p[i]) = 2 /\ FormDeg(u.p[3-i]) = 0
(* the wrapper reads form degrees of the elements themselves *)
MakeHdiv  == IsTp(term) /\ HasFD(term) /\ FDsum(term) = Dm(term) - 1 /\ DivOK(term) /\ term' = Op("hdiv", <<term>>)
MakeHcurl == IsTp(term) /\ HasFD(term) /\ FDsum(term) = 1 /\ CurlOK(term) /\ term' = Op("hcurl", <<term>>)

EnrichPairs(u) ==
  IF u.f = "CG" /\ u.c \in {"interval", "triangle", "tetrahedron"} /\ u.k <= Dm(u)
  THEN { << u, El("Bub", u.c, m) >> : m \in (Dm(u)+1)..(IF Dm(u) = 3 /\ ~Deeper THEN 4 ELSE Dm(u)+2) } \union
       (IF Dm(u) = 3 /\ u.k = 1 THEN { <<u, El("FBub", u.c, 3), El("Bub", u.c, 4)>> } ELSE {})
  ELSE IF u.f = "DG" /\ u.c = "triangle" /\ u.k <= 1 THEN { << u, El("Bub", u.c, 3) >> }
  ELSE IF u.f = "RT" /\ u.c \in {"triangle", "tetrahedron"} /\ u.k = 1 /\ u.v = "" THEN { << u, Res(El("RT", u.c, 2), "interior") >> }
  ELSE IF u.f = "N1" /\ u.c = "triangle" /\ u.k = 1 /\ u.v = "" THEN { << u, Res(El("N1", u.c, 2), "interior") >> }
  ELSE {}
(* plain enrichment needs no independence; the nodal one does *)
(* DG_k and a bubble are independent, yet their point values are not: P0/P1  *)
(* points and the bubble point may coincide, so only CG and RT are nodal here*)
MakeEnriched == \E parts \in EnrichPairs(term) : term' = Op("enr", parts)
MakeNodal    == term.f # "DG" /\ \E parts \in EnrichPairs(term) : term' = Op("nod", parts)
(* the classical quadrilateral/prism spaces: sums of wrapped products *)
Swap(u) == Op("tp", << u.p[2], u.p[1] >>)
EnrichWrapped ==
  /\ term.f \in {"hdiv", "hcurl"} /\ CellT(term) = Prod(<<Interval, Interval>>)
  /\ term.p[1].p[1] # term.p[1].p[2]
  /\ term' = Op("enr", << term, Op(term.f, << Swap(term.p[1]) >>) >>)
EnrichPrism ==
  /\ term.f = "hdiv" /\ CellT(term) = Prod(<<Triangle, Interval>>) /\ MapName(term.p[1]) = "contravariant piola"
  /\ term' = Op("enr", << term, Op("hdiv", << Op("tp", << El("DG", "triangle", 0), El("CG", "interval", 1) >>) >>) >>)

(* elements that take FIAT seconds to build: combined further only in the   *)
(* thorough tier                                                            *)
Slow(u) == \/ u.f \in {"KMV", "CG", "DG", "Arg", "QArg", "Bell"} /\ Dm(u) >= 2 /\ PDeg(u) >= 5
           \/ Dm(u) = 3 /\ PDeg(u) >= 4
Restrictable(u) == /\ Based(u) /\ u.f \notin Composites \union {"Bern", "S", "DPC", "Trace", "P0"} /\ u.v = ""
                   /\ SpaceDim(u) <= 40 /\ ~(Deeper = FALSE /\ Slow(u))
                   \* a dof set which the family restricts: value shapes beyond vectors included
RestrictTo(dom) ==
  /\ (Restrictable(term) \/ term.f = "nod")
  /\ dom \in {"vertex", "edge", "face"} => DomDim(dom, Dm(term)) <= Dm(term)
  /\ LET r == Res(term, dom) IN SpaceDim(r) > 0 /\ term' = r
Break == /\ (term.f \in {"CG", "RT", "N1", "BDM", "Herm", "Regge", "CR", "GLL", "Bub"} /\ term.k <= 3 /\ term.v = "") \/ (term.f = "nod" /\ term.p[1].k = 1)
            \/ (term.f = "res" /\ term.p[1].k = 2 /\ term.v \in {"interior", "facet"})
            \/ (term.f \in {"Bern", "S", "DPC", "DG", "Taylor"} /\ term.k \in {1, 2} /\ ~(term.f = "S" /\ term.c = "interval"))
            \/ (term.f \in {"flat", "hdiv", "hcurl", "tp"} /\ SpaceDim(term) <= 6)
            \/ (term.f = "enr" /\ SpaceDim(term) <= 8)
         /\ term' = Op("brk", <<term>>)
MixWith == { <<El("CG", "triangle", 2), El("CG", "triangle", 1)>>, <<El("RT", "triangle", 1), El("DG", "triangle", 0)>>,
             <<El("CG", "triangle", 2), El("RT", "triangle", 2), El("N1", "triangle", 1)>>,
             <<El("Regge", "triangle", 1), El("CG", "triangle", 1)>>,
             <<El("BDM", "tetrahedron", 1), El("DG", "tetrahedron", 0), El("CG", "tetrahedron", 1)>>,
             <<El("CG", "interval", 3), El("DG", "interval", 1)>>,
             <<El("N2", "tetrahedron", 1), El("CG", "tetrahedron", 2)>>,
             <<El("MTW", "triangle", 3), El("DG", "triangle", 0)>>,
             \* the same part over and over: fields made of scalars
             <<El("CG", "triangle", 3), El("CG", "triangle", 3)>>,
             <<El("CG", "tetrahedron", 1), El("CG", "tetrahedron", 1), El("CG", "tetrahedron", 1)>>,
             <<El("CR", "triangle", 1), El("DG", "triangle", 0), El("CR", "triangle", 1)>>,
             <<El("N1", "triangle", 2), El("N1", "triangle", 2), El("CG", "triangle", 1)>>,
             <<El("GLL", "interval", 3), El("GLL", "interval", 3)>>,
             <<El("S", "quadrilateral", 2), El("DPC", "quadrilateral", 1), El("S", "quadrilateral", 2)>> }
Mix == \/ \E m \in MixWith : term = m[1] /\ term' = Op("mix", m)
       \/ /\ term.f \in {"enr", "nod", "res"} /\ term.p[1].f = "CG" /\ term.p[1].c # "interval"
          /\ term' = Op("mix", << term, El("CG", term.p[1].c, 1) >>)
       \/ /\ term.f = "flat" /\ term.p[1].f = "enr" /\ SpaceDim(term) <= 12
          /\ term' = Op("mix", << term, Op("flat", << Op("tp", <<El("DG", "interval", 0), El("DG", "interval", 0)>>) >>) >>)
       \/ /\ term.f \in {"tp", "flat", "hdiv"} /\ SpaceDim(term) <= 4 /\ term' = Op("mix", << term, term >>)

Init == term \in Prims /\ nops = 0
Next == /\ nops < MaxOps /\ nops' = nops + 1
        /\ \/ TensorRight \/ TensorLeft \/ FlattenDims \/ MakeHdiv \/ MakeHcurl
           \/ MakeEnriched \/ MakeNodal \/ EnrichWrapped \/ EnrichPrism
           \/ (\E dom \in {"interior", "vertex", "edge", "face", "facet"} : RestrictTo(dom))
           \/ Break \/ Mix
        /\ SpaceDim(term') <= MaxDim
Spec == Init /\ [][Next]_vars
TermView == term

-----------------------------------------------------------------------------
(* coherence of what is promised *)
ClosureCount(u, code, e) ==
  LET c == CellT(u) IN
  SumSeq([i \in 1..Len(SubEnts(c, code, e)) |-> NPer(u, SubEnts(c, code, e)[i][1], SubEnts(c, code, e)[i][2])])
(* formulas from the literature, independent of the counts per entity *)
KnownDim(u) ==
  LET d == Dm(u)  k == u.k IN
  CASE u.f \in {"CG", "Bern", "DG", "GLL", "GL", "GR", "Taylor", "DPC"} -> P(d, k)
    [] u.f = "P0" -> 1
    [] u.f \in {"RT", "DRT"} -> RTdim(d, k)
    [] u.f \in {"BDM", "N2"} -> d * P(d, k)
    [] u.f = "N1" -> N1int(d, k)
    [] u.f = "BDFM" -> 9
    [] u.f = "Regge" -> ((d*(d+1)) \div 2) * P(d, k)
    [] u.f = "HHJ" -> 3 * P(2, k)
    [] u.f = "Herm" -> P(d, 3)
    [] u.f = "Arg" -> P(2, k) [] u.f = "QArg" -> 21 [] u.f = "Bell" -> 18 + 3
    [] u.f = "Morley" -> 6 [] u.f = "CR" -> d + 1
    [] u.f = "KMV" -> IF d = 2 THEN <<3, 7, 12, 18, 30>>[k] ELSE <<4, 15, 32>>[k]
    [] u.f = "AWc" -> 30 [] u.f = "AWnc" -> 18 [] u.f = "MTW" -> 20
    [] u.f = "Bub" -> P(d, k - d - 1)
    [] u.f = "S" -> (IF d = 1 THEN k + 1
                     ELSE IF d = 2 THEN (IF k = 1 THEN 4 ELSE P(2, k) + 2)
                     ELSE <<8, 20, 32, 50, 74, 105, 144>>[k])
    [] OTHER -> SpaceDim(u)
WellFormed ==
  /\ SpaceDim(term) = KnownDim(term)
  /\ SpaceDim(term) = ClosureCount(term, TopCode(CellT(term)), 0)
  /\ Len(Maps(term)) = SpaceDim(term)
  /\ Nodal(term) \in BOOLEAN
  /\ term.f = "tp" => SpaceDim(term) = SpaceDim(term.p[1]) * SpaceDim(term.p[2])
  /\ term.f \in {"flat", "hdiv", "hcurl", "brk"} => SpaceDim(term) = SpaceDim(term.p[1])
  /\ term.f \in {"hdiv", "hcurl"} => VShape(term) = << Dm(term) >>
  /\ FormDeg(term) <= Dm(term)
(* the trace of a conforming scalar space on a face is the same space on the face *)
TraceCoherent ==
  term.f \in {"CG", "Bern", "GLL", "S"} =>
    LET c == CellT(term) IN
    \A i \in 1..Len(EntList(c)) :
      LET s == EntList(c)[i] IN
      SumSeq(s[1]) >= 1 => ClosureCount(term, s[1], s[2]) =
        (IF term.f = "S" THEN (IF SumSeq(s[1]) = 1 THEN term.k + 1 ELSE IF SumSeq(s[1]) = 2 THEN (IF term.k = 1 THEN 4 ELSE P(2, term.k) + 2) ELSE SpaceDim(term))
         ELSE P(SumSeq(s[1]), term.k))
Inv == WellFormed /\ TraceCoherent

Emit == PrintT(<<"TERM", ToJson([t |-> term, nm |-> KnownAs(term.f), dim |-> SpaceDim(term), ops |-> nops, dual |-> DualDefined(term),
          kind |-> TraceKind(term), claim |-> ClaimedEnts(term), glue |-> Glues(term),
          L |-> LineDeg(term), m |-> TraceDeg(term), nc |-> NComp(term)])>>)

(* simplices of another convention, and what is defined on them *)
ConvsOf(d) == CASE d = 1 -> {"DefaultLine"} [] d = 2 -> {"DefaultTriangle", "IntrepidTriangle"}
                [] OTHER -> {"DefaultTetrahedron", "IntrepidTetrahedron"}
(* these read the UFC numbering of edges and faces and say so *)
UfcOnly(t) == t.f = "KMV" \/ (t.f = "N2" /\ t.c = "tetrahedron" /\ t.k >= 2)
RECURSIVE AnyCell(_)
AnyCell(t) == IF IsComposite(t) THEN t.f \in {"enr", "nod", "res", "brk", "mix"} /\ \A i \in 1..Len(t.p) : AnyCell(t.p[i])
              ELSE t.c \in SimplexNames /\ ~UfcOnly(t) /\ t.f \notin {"S", "DPC"}
=============================================================================
