-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Quadrature rules as terms, and what each of them promises: the cell, the *)
(* number of points where that is documented, and the polynomial degree per *)
(* factor of the cell up to which it integrates exactly.                    *)
(*                                                                         *)
(* [r, c, n, v, p]: kind, cell name, degrees or numbers of points (one per  *)
(* elementary factor of the cell, or a single one), scheme, parts.          *)
(***************************************************************************)
EXTENDS Poly

Rule(r, c, n, v) == [r |-> r, c |-> c, n |-> n, v |-> v, p |-> <<>>]
TensorRule(ps)   == [r |-> "tensor", c |-> "", n |-> <<>>, v |-> "", p |-> ps]

(* reference cells which are not UFC: the biunit simplices *)
OtherCells == {"default line", "default triangle", "default tetrahedron", "intrepid triangle", "intrepid tetrahedron"}
UnitOf(c) == CASE c = "default line" -> "interval" [] c \in {"default triangle", "intrepid triangle"} -> "triangle"
               [] c \in {"default tetrahedron", "intrepid tetrahedron"} -> "tetrahedron" [] OTHER -> c
Biunit(c) == c \in {"default line", "default triangle", "default tetrahedron"}

(* dimensions of the elementary factors of a cell *)
RECURSIVE LeafDims(_)
LeafDims(c) == CASE c.k = "simplex" -> << c.d >> [] c.k = "flat" -> LeafDims(c.c[1])
                 [] OTHER -> Flatten([i \in 1..Len(c.c) |-> LeafDims(c.c[i])])

RECURSIVE RuleCell(_)
RuleCell(r) == IF r.r = "tensor" THEN Prod([i \in 1..Len(r.p) |-> RuleCell(r.p[i])]) ELSE CellOf(UnitOf(r.c))
RuleDims(r) == LeafDims(RuleCell(r))

KMVexact(d, k) == IF d = 2 THEN <<1, 3, 5, 7, 10>>[k] ELSE <<1, 3, 5>>[k]
(* exactness per elementary factor *)
RECURSIVE Exact(_)
Exact(r) ==
  LET ds == RuleDims(r)
      nn == IF Len(r.n) = 1 THEN Rep(r.n[1], Len(ds)) ELSE r.n IN
  CASE r.r = "tensor" -> Flatten([i \in 1..Len(r.p) |-> Exact(r.p[i])])
    [] r.r = "create" -> [i \in 1..Len(ds) |-> IF r.v = "KMV" THEN KMVexact(ds[i], nn[i]) ELSE nn[i]]
    [] r.r \in {"make", "GJ", "GL", "face"} -> [i \in 1..Len(ds) |-> 2 * nn[i] - 1]
    [] r.r = "GLL" -> << 2 * r.n[1] - 3 >>
    [] r.r = "GR" -> << 2 * r.n[1] - 2 >>
(* documented number of points, None where it is not *)
RECURSIVE NPoints(_)
NPoints(r) ==
  LET ds == RuleDims(r)
      nn == IF Len(r.n) = 1 THEN Rep(r.n[1], Len(ds)) ELSE r.n IN
  CASE r.r = "tensor" -> LET q == [i \in 1..Len(r.p) |-> NPoints(r.p[i])] IN
                         IF \E i \in 1..Len(q) : q[i] = None THEN None ELSE ProdSeq(q)
    [] r.r = "create" /\ r.v = "canonical" -> ProdSeq([i \in 1..Len(ds) |-> ((nn[i] + 2) \div 2)^ds[i]])
    [] r.r = "create" /\ r.v = "KMV" -> ProdSeq([i \in 1..Len(ds) |-> IF ds[i] = 2 THEN <<3, 7, 12, 18, 30>>[nn[i]] ELSE <<4, 15, 32>>[nn[i]]])
    [] r.r = "create" -> None
    [] OTHER -> ProdSeq([i \in 1..Len(ds) |-> nn[i]^ds[i]])

(* Gauss-Jacobi rules on [-1, 1] with weight (1-x)^a (1+x)^b:               *)
(* the integral of t^k, t = (1+x)/2, is 2^(a+b+1) a! / prod_{j=1..a+1}(b+k+j) *)
RECURSIVE Rising(_, _)
Rising(m, n) == IF n = 0 THEN 1 ELSE m * Rising(m + 1, n - 1)
JacobiMoment(a, b, k) == Rat((2^(a + b + 1)) * Fact(a), Rising(b + k + 1, a + 1))
=============================================================================
