------------------------------- MODULE Spaces -------------------------------
(***************************************************************************)
(* The function space every elementary family documents, as a spanning set  *)
(* of polynomial fields with integer coefficients on the reference cell.    *)
(* A field is a sequence of components (row-major for tensors), a component *)
(* a sequence of << coefficient, exponents >>.                              *)
(***************************************************************************)
EXTENDS Poly

Monos(d, k)   == LET e == MIUpTo(d, k) IN [i \in 1..Len(e) |-> Mono(e[i])]      \* P_k
MonosEq(d, k) == IF k < 0 THEN <<>> ELSE LET e == MI(d, k) IN [i \in 1..Len(e) |-> Mono(e[i])]
Scal(ps)      == [i \in 1..Len(ps) |-> << ps[i] >>]                              \* scalars as fields
(* p in component c of n *)
InComp(p, c, n) == [i \in 1..n |-> IF i = c THEN p ELSE ZeroP]
Vec(ps, n)    == Flatten([c \in 1..n |-> [i \in 1..Len(ps) |-> InComp(ps[i], c, n)]])
(* symmetric d x d tensors *)
SymPairs(d)   == IF d = 2 THEN << <<1,1>>, <<1,2>>, <<2,2>> >>
                 ELSE << <<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>, <<3,3>> >>
SymField(p, ij, d) == [n \in 1..(d*d) |-> LET i == (n-1) \div d + 1  j == ((n-1) % d) + 1 IN
                         IF << i, j >> = ij \/ << j, i >> = ij THEN p ELSE ZeroP]
SymT(ps, d)   == LET s == SymPairs(d) IN
                 Flatten([q \in 1..Len(s) |-> [i \in 1..Len(ps) |-> SymField(ps[i], s[q], d)]])

(* x p, and the rotated position times p *)
XTimes(p, d)  == [i \in 1..d |-> PMul(PVar(d, i), p)]
Cross(u)      == \* x cross u, a 3-field
  << PMul(PVar(3,2), u[3]) \o PScale(-1, PMul(PVar(3,3), u[2])),
     PMul(PVar(3,3), u[1]) \o PScale(-1, PMul(PVar(3,1), u[3])),
     PMul(PVar(3,1), u[2]) \o PScale(-1, PMul(PVar(3,2), u[1])) >>
RTSpan(d, k)  == Vec(Monos(d, k-1), d)
                 \o (LET h == MonosEq(d, k-1) IN [i \in 1..Len(h) |-> XTimes(h[i], d)])
N1Span(d, k)  ==
  IF d = 2 THEN Vec(Monos(2, k-1), 2)
       \o (LET h == MonosEq(2, k-1) IN [i \in 1..Len(h) |-> << PMul(PVar(2,2), h[i]), PScale(-1, PMul(PVar(2,1), h[i])) >>])
  ELSE Vec(Monos(3, k-1), 3)
       \o (LET h == Vec(MonosEq(3, k-1), 3) IN [i \in 1..Len(h) |-> Cross(h[i])])

Bubble(d)     == PProd([v \in 1..(d+1) |-> Bary(d, v-1)])
TimesAll(b, ps) == [i \in 1..Len(ps) |-> PMul(b, ps[i])]
(* product of the barycentric coordinates of a facet (all but vertex v) *)
FaceBubble(d, v) == LET o == SelectSeq([i \in 1..(d+1) |-> i-1], LAMBDA w : w # v)
                    IN PProd([i \in 1..d |-> Bary(d, o[i])])
KMVSpan(d, k) ==
  IF d = 2 THEN Monos(2, k) \o (IF KMVdeg(2, k) > k THEN TimesAll(Bubble(2), Monos(2, KMVdeg(2, k) - 3)) ELSE <<>>)
  ELSE Monos(3, k) \o (IF k = 1 THEN <<>> ELSE
         Flatten([v \in 1..4 |-> TimesAll(FaceBubble(3, v-1), Monos(3, k-2))]) \o TimesAll(Bubble(3), Monos(3, k-2)))

(* superlinear degree: total degree ignoring the variables that occur linearly *)
SupDeg(e) == SumSeq([i \in 1..Len(e) |-> IF e[i] = 1 THEN 0 ELSE e[i]])
BoxMonos(d, k) == LET e == SelectSeq(CartesianSeq([i \in 1..d |-> [j \in 1..(k+2) |-> j-1]]), LAMBDA q : TRUE) IN e
SSpan(d, k)   ==
  IF d = 1 THEN Monos(1, k)
  ELSE LET es == SelectSeq(BoxMonos(d, k), LAMBDA e : SupDeg(e) <= k) IN [i \in 1..Len(es) |-> Mono(es[i])]

(* BDFM_2: P1^2 plus the fields tangential to an edge supported there       *)
BDFMSpan == Vec(Monos(2, 1), 2) \o
  << [i \in 1..2 |-> PScale(<<1,-1>>[i], PMul(Bary(2,1), Bary(2,2)))],
     << ZeroP, PMul(Bary(2,0), Bary(2,2)) >>,
     << PMul(Bary(2,0), Bary(2,1)), ZeroP >> >>

(* facet bubbles: the Lagrange functions of the facets, which depend on the  *)
(* interior nodes too; judged as a restriction of Lagrange elements (C11)    *)
HasSpan(t) == t.f \notin {"Trace", "FBub"} /\ ~IsComposite(t)
Span(t) ==
  LET d == Dm(t)  k == t.k IN
  CASE t.f \in {"CG", "Bern", "DG", "GLL", "GL", "GR", "Taylor", "DPC", "CR", "Herm", "Arg", "QArg", "Bell", "Morley", "P0"}
         -> Scal(Monos(d, IF t.f = "P0" THEN 0 ELSE k))
    [] t.f \in {"RT", "DRT"} -> RTSpan(d, k)
    [] t.f \in {"BDM", "N2", "MTW"} -> Vec(Monos(d, k), d)
    [] t.f = "N1" -> N1Span(d, k)
    [] t.f = "BDFM" -> BDFMSpan
    [] t.f \in {"Regge", "HHJ", "AWc", "AWnc"} -> SymT(Monos(d, k), d)
    [] t.f = "KMV" -> Scal(KMVSpan(d, k))
    [] t.f = "Bub" -> Scal(TimesAll(Bubble(d), Monos(d, k-d-1)))
    [] t.f = "S" -> Scal(SSpan(d, k))
=============================================================================
