------------------------------- MODULE Legality -------------------------------
(***************************************************************************)
(* C19: which requests mean something.  "yes": the request is answered,     *)
(* "no": it is refused with an exception, "open": either.                   *)
(* A request is [op, t, c, k, s, p]: an operation on an element, a cell, an *)
(* integer, a word and parts.                                               *)
(***************************************************************************)
EXTENDS Families

Req(op) == [op |-> op, t |-> El("P0", "triangle", 0), c |-> "", k |-> 0, s |-> "", p |-> <<>>]
Variants == {"", "point", "integral"}
HasVariants == {"RT", "N1", "N2", "BDM"}
(* the number in "integral(n)", none otherwise *)
VarNum(v) == CASE v = "integral(1)" -> 1 [] v = "integral(2)" -> 2 [] v = "integral(3)" -> 3 [] v = "integral(4)" -> 4 [] v = "integral(6)" -> 6 [] OTHER -> None
(* what the code offers beyond what the specification says something about *)
Beyond(t) == \/ t.c = "vertex"
             \/ t.f \in {"RT", "DRT", "BDM"} /\ t.c = "interval"
             \/ t.f \in {"S", "DPC"} /\ t.c \in {"interval * interval", "quadrilateral * interval"}
             \/ t.f = "Trace" /\ t.c \notin {"interval", "triangle", "tetrahedron", "quadrilateral"}
             \/ t.f = "KMV" /\ t.c = "interval"
             \/ t.f = "Trace" /\ t.c = "interval"
             \/ t.f \in {"QArg", "Bell", "Morley", "P0"} /\ ~Exists(t.f, t.c, t.k) /\ t.c = "triangle"     \* these take no degree
             \/ t.f = "P0" /\ t.c \notin SimplexNames
(* how many points an integral moment needs *)
PointsAsked(t) == IF t.f \in {"RT", "N1"} THEN t.k ELSE t.k + 1
LegalEl(t) ==
  IF Beyond(t) /\ ~Exists(t.f, t.c, t.k) /\ t.k >= 0 THEN "open"
  ELSE IF ~Exists(t.f, t.c, t.k) THEN "no"
  ELSE IF t.v = "" THEN "yes"
  ELSE IF t.f \notin HasVariants THEN "open"
  ELSE IF t.v \in Variants THEN "yes"
  ELSE IF VarNum(t.v) = None THEN "no"
  ELSE IF VarNum(t.v) < PointsAsked(t) THEN "no" ELSE "yes"

Schemes == {"default", "canonical", "KMV"}
RECURSIVE HasSimplexFactor(_, _)
HasSimplexFactor(c, bad) == CASE c.k = "simplex" -> c.d \in bad
                              [] OTHER -> \E i \in 1..Len(c.c) : HasSimplexFactor(c.c[i], bad)
LegalQuad(q) == LET c == CellOf(q.c) IN
  IF q.s \notin Schemes THEN (IF q.c = "vertex" THEN "open" ELSE "no")
  ELSE IF q.k < 0 THEN "no"
  ELSE IF q.s # "KMV" THEN "yes"
  ELSE IF HasSimplexFactor(c, {0, 1}) THEN "no"
  ELSE IF q.k < 1 \/ q.k > (IF c.d = 2 THEN 5 ELSE 3) THEN "no" ELSE "yes"
LegalRule(q) == IF q.k < 1 THEN "no" ELSE IF CellOf(q.c).k = "prod" THEN "no" ELSE "yes"

SameKind(p) == \A i \in 1..Len(p) : /\ CellT(p[i]) = CellT(p[1]) /\ VShape(p[i]) = VShape(p[1]) /\ MapName(p[i]) = MapName(p[1])
SameCells(p) == \A i \in 1..Len(p) : CellT(p[i]) = CellT(p[1])
(* families given by a polynomial set *)
HasCoeffs(t) == t.f \notin {"Bern", "S", "DPC", "Trace", "tp", "flat", "hdiv", "hcurl", "enr", "mix"}
                \/ (t.f = "DPC" /\ t.c = "interval")
(* two spaces which have a function in common *)
ScalarPoly(t) == t.f \in {"P0", "CG", "DG", "GL", "GLL", "GR", "KMV", "Taylor", "CR", "Herm", "Arg", "QArg", "Bell", "Morley", "Bub", "FBub"}
VectorPoly(t) == t.f \in {"RT", "DRT", "BDM", "BDFM", "N1", "N2", "MTW"}
Overlap(a, b) == \/ a = b
                 \/ /\ a.c = b.c  /\ ((ScalarPoly(a) /\ ScalarPoly(b)) \/ (VectorPoly(a) /\ VectorPoly(b)))
                    /\ SpaceDim(a) + SpaceDim(b) > (IF ScalarPoly(a) THEN 1 ELSE Dm(a)) * P(Dm(a), Max2(PDeg(a), PDeg(b)))
Included(a, b) == a.f \in {"CG", "DG", "P0"} /\ b.f \in {"CG", "DG"} /\ a.c = b.c /\ PDeg(a) <= PDeg(b)
FDKnown(p) == \A i \in 1..2 : FormDeg(p[i]) # None
(* families whose degrees of freedom are values at points *)
PointFams == {"P0", "CG", "DG", "GL", "GLL", "GR", "KMV"}
(* several degrees at once, one for each factor of the cell *)
Factors(c) == CASE c.k = "simplex" -> 0 [] c.k = "prod" -> Len(c.c) [] OTHER -> Len(c.c[1].c)
LegalDegrees(q) == LET c == CellOf(q.c) IN
  CASE q.op = "quad-each"  -> IF q.k # Factors(c) \/ c.k = "simplex" THEN "no" ELSE "yes"
    [] q.op = "trace-each" -> IF q.k # Factors(c) \/ c.k = "simplex" \/ Dim(c) < 2 THEN "no" ELSE "open"
(* entities: q.k names one before the first (-1), the first (0), the last (1), one after the last (2) of dimension q.s *)
DimWord(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3 [] OTHER -> 4
LegalEnt(q) == IF DimWord(q.s) > Dm(q.p[1]) THEN "no" ELSE IF q.k \in {0, 1} THEN "yes" ELSE "no"
LegalComb(q) ==
  CASE q.op = "enr" -> IF SameKind(q.p) THEN "yes" ELSE "no"
    [] q.op = "mix" -> IF SameCells(q.p) THEN "yes" ELSE "no"
    [] q.op = "nod" -> IF ~SameKind(q.p) \/ \E i \in 1..Len(q.p) : ~HasCoeffs(q.p[i]) THEN "no"
                       ELSE IF \E i \in 1..Len(q.p) : \E j \in 1..Len(q.p) : i # j /\ (Included(q.p[i], q.p[j]) \/ Overlap(q.p[i], q.p[j])) THEN "no" ELSE "open"
    [] q.op = "tp"  -> IF \A i \in 1..2 : MapName(q.p[i]) # "affine" THEN "no"
                       ELSE IF \E i \in 1..2 : q.p[i].f = "Trace" THEN "open"
                       ELSE IF Len(VShape(q.p[1])) > 0 /\ Len(VShape(q.p[2])) > 0 THEN "no"
                       ELSE IF q.p[1].f \in PointFams /\ q.p[2].f \in PointFams THEN "yes" ELSE "open"
    \* the wrappers of the product of the two parts
    [] q.op \in {"hdiv", "hcurl"} ->
         IF \A i \in 1..2 : MapName(q.p[i]) # "affine" THEN "no"
         ELSE IF ~FDKnown(q.p) THEN "no"
         ELSE IF FormDeg(q.p[1]) + FormDeg(q.p[2]) # (IF q.op = "hdiv" THEN Dm(q.p[1]) + Dm(q.p[2]) - 1 ELSE 1) THEN "no" ELSE "open"
    \* the wrappers of something which is not a product
    [] q.op \in {"hdiv1", "hcurl1"} -> "no"
    [] q.op = "flat1" -> IF CellT(q.p[1]).k = "simplex" THEN "no" ELSE "open"
    [] q.op = "res" -> IF q.s \notin {"interior", "vertex", "edge", "face", "facet"} THEN "no"
                       ELSE IF ~HasCoeffs(q.p[1]) THEN (IF q.p[1].f = "DPC" THEN "open" ELSE "no")
                       ELSE IF q.s # "facet" /\ DomDim(q.s, Dm(q.p[1])) > Dm(q.p[1]) THEN "no"
                       ELSE IF SpaceDim(Res(q.p[1], q.s)) = 0 THEN "no" ELSE "yes"
    [] q.op \in {"res-none", "res-empty", "res-string", "res-outside"} -> "no"
CellWords == {"vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "triangle * interval", "quadrilateral * interval", "interval * interval"}
(* simplices of another convention; q.c names one for the element, or for the q.k-th part of two *)
ConvNames == {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron", "IntrepidTriangle", "IntrepidTetrahedron"}
ConvDim(x) == CASE x = "DefaultLine" -> 1 [] x \in {"DefaultTriangle", "IntrepidTriangle"} -> 2 [] OTHER -> 3
LegalElOn(t) == IF t.f \in {"KMV", "S", "DPC", "Trace"} \/ (t.f = "N2" /\ t.c = "tetrahedron" /\ t.k >= 2) THEN (IF LegalEl(t) = "no" THEN "no" ELSE "open") ELSE LegalEl(t)
Legal(q) ==
  CASE q.op = "el" /\ q.c # "" -> LegalElOn(q.t)
    [] q.op \in {"enr", "mix", "nod"} /\ q.c # "" -> "no"
    [] q.op = "el"   -> LegalEl(q.t)
    [] q.op = "quad" -> LegalQuad(q)
    [] q.op = "rule" -> LegalRule(q)
    [] q.op = "ufc_cell" -> IF q.s \in CellWords THEN "yes" ELSE "no"
    [] q.op = "ufc_simplex" -> IF q.k \in 0..3 THEN "yes" ELSE "no"
    [] q.op = "default_simplex" -> IF q.k \in 1..3 THEN "yes" ELSE "no"
    [] q.op \in {"quad-each", "trace-each"} -> LegalDegrees(q)
    [] q.op = "ent" -> LegalEnt(q)
    \* points with fewer coordinates than the cell has
    [] q.op = "short" -> IF Dm(q.p[1]) = 1 THEN "open" ELSE "no"
    \* a rule with q.k weights more than points
    [] q.op = "weights" -> IF q.k = 0 THEN "yes" ELSE "no"
    \* values at the points of a rule: on entities, derivatives, at other points
    [] q.op = "quadel" -> IF q.s = "same" THEN "yes" ELSE "no"
    [] OTHER -> LegalComb(q)
=============================================================================
