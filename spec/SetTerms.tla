------------------------------- MODULE SetTerms -------------------------------
(***************************************************************************)
(* Polynomial sets as programs: rows of integer coefficients with respect   *)
(* to the members of a full set, and their exact rank.                      *)
(***************************************************************************)
EXTENDS Poly

UfcNames == {"vertex", "interval", "triangle", "tetrahedron"}
ExpCells == UfcNames \union {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron", "IntrepidTriangle", "IntrepidTetrahedron"}
UnitD(c) == CASE c = "vertex" -> 0 [] c \in {"interval", "DefaultLine"} -> 1
              [] c \in {"triangle", "DefaultTriangle", "IntrepidTriangle"} -> 2 [] OTHER -> 3
BiunitCell(c) == c \in {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron"}
NExp(c, n) == LET d == UnitD(c) IN Choose(n + d, d)
SetSize(a) == ProdSeq(a.shape) * NExp(a.c, a.n)

(* groups of members, as integer rows over the M members of the full set *)
Menu == {"first", "low", "evens", "odds", "steps", "ends", "mirror", "last", "steep"}
UnitRow(M, i) == [j \in 1..M |-> IF j = i THEN 1 ELSE 0]
PairRow(M, i, j, b) == [k \in 1..M |-> (IF k = i THEN 1 ELSE 0) + (IF k = j THEN b ELSE 0)]
Members(M, m) ==
  CASE m = "first" -> << UnitRow(M, 1) >>
    [] m = "low"   -> [i \in 1..((M + 1) \div 2) |-> UnitRow(M, i)]
    [] m = "evens" -> [i \in 1..(M \div 2) |-> UnitRow(M, 2 * i)]
    [] m = "odds"  -> [i \in 1..((M + 1) \div 2) |-> UnitRow(M, 2 * i - 1)]
    [] m = "steps" -> [i \in 1..(M - 1) |-> PairRow(M, i, i + 1, -1)]
    [] m = "ends"  -> << PairRow(M, 1, M, 1), PairRow(M, 1, M, -1) >>
    [] m = "mirror" -> [i \in 1..(M \div 2) |-> PairRow(M, i, M + 1 - i, 2)]
    \* almost in the span of others, but not quite
    [] m = "steep" -> << PairRow(M, 1, 2, 600), UnitRow(M, 2) >>
    [] OTHER -> << UnitRow(M, M) >>
AllRows(a) == Flatten([i \in 1..Len(a.g) |-> Members(SetSize(a), a.g[i])])

(* rank over the integers: eliminate one column after another *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdSeq(_)
GcdSeq(s) == IF s = <<>> THEN 0 ELSE Gcd(GcdSeq(Tail(s)), AbsI(Head(s)))
Primitive(r) == LET g == GcdSeq(r) IN IF g <= 1 THEN r ELSE [i \in 1..Len(r) |-> IF r[i] < 0 THEN -((-r[i]) \div g) ELSE r[i] \div g]
RECURSIVE RankCol(_, _)
RankCol(rows, col) ==
  IF rows = <<>> THEN 0 ELSE IF col > Len(rows[1]) THEN 0
  ELSE LET piv == SelectSeq(rows, LAMBDA r : r[col] # 0)  zer == SelectSeq(rows, LAMBDA r : r[col] = 0) IN
       IF piv = <<>> THEN RankCol(rows, col + 1)
       ELSE LET p == piv[1]
                rest == [i \in 1..(Len(piv) - 1) |->
                   Primitive([k \in 1..Len(p) |-> piv[i + 1][k] * p[col] - p[k] * piv[i + 1][col]])]
            IN 1 + RankCol(Deep(zer \o rest), col + 1)
RankI(rows) == RankCol(rows, 1)
=============================================================================
