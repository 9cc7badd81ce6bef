-------------------------------- MODULE JudgeFun --------------------------------
(***************************************************************************)
(* C15: a functional is a sum of weights times derivatives of components at *)
(* points.  What it does to every polynomial field of low degree is what    *)
(* its name says, computed here from the vertices of the cell.              *)
(***************************************************************************)
EXTENDS JudgeSet, FunTerms

FunCell(c) == IF c \in UfcNames THEN [k |-> "simplex", d |-> UnitD(c)] ELSE Other_(c)
FEntV(q) == EntV(FunCell(q.c), << << FDimOf(q) >>, q.e >>)
(* measure of the reference cell the entity is parametrised by *)
RefMeas(q) == LET k == FDimOf(q) IN Rat(IF BiunitCell(q.c) THEN 2^k ELSE 1, Fact(k))

(* the vector field of the direction: integer vector times a number *)
NormalDir(q) == LET c == FunCell(q.c)  d == UnitD(q.c)  R == RawNormal(FEntV(q)) IN
  IF d > 1 /\ q.c \in UfcNames THEN (IF d = 2 THEN R ELSE [j \in 1..3 |-> -R[j]]) ELSE Outward(c, q.e)
(* compute_normal: unit length, except for length 2 by convention on the UFC tetrahedron *)
NormalOf(q) == LET w == NormalDir(q)  m == DotI(w, w)  s == DivI(Sqrt(FromInt(m)), m) IN
               [j \in 1..Len(w) |-> MulI(s, IF q.c = "tetrahedron" THEN 2 * w[j] ELSE w[j])]
ScaledNormalOf(q) == LET w == NormalDir(q) IN
               IF q.c \in UfcNames THEN IntRow(w) ELSE [j \in 1..Len(w) |-> DivI(FromInt(w[j]), Fact(UnitD(q.c) - 1))]

(* a functional as << coefficient, derivative, component >> *)
VecTerms(u, d) == [i \in 1..Len(u) |-> << u[i], [j \in 1..d |-> 0], i >>]
MatTerms(M, d) == Flatten([i \in 1..d |-> [j \in 1..d |-> << M[i][j], [k \in 1..d |-> 0], (i - 1) * d + j >>]])
OuterN(u, w) == [i \in 1..Len(u) |-> [j \in 1..Len(w) |-> Mul(u[i], w[j])]]
FTerms(q) ==
  LET d == UnitD(q.c)  z == [j \in 1..d |-> 0] IN
  CASE q.f \in {"PointEvaluation", "IntegralMoment"} -> << << One, z, 1 >> >>
    [] q.f \in {"ComponentPointEvaluation", "ComponentMoment"} -> << << One, z, q.i + 1 >> >>
    [] q.f = "PointDerivative" -> << << One, q.a, 1 >> >>
    [] q.f \in {"PointNormalDerivative", "IntegralMomentOfNormalDerivative"} ->
         LET n == NormalOf(q) IN [i \in 1..d |-> << n[i], UnitA(d, i), 1 >>]
    [] q.f = "PointNormalSecondDerivative" ->
         LET n == NormalOf(q) IN Flatten([i \in 1..d |-> [j \in 1..d |-> << Mul(n[i], n[j]), AddA(UnitA(d, i), UnitA(d, j)), 1 >>]])
    [] q.f = "PointNormalEvaluation" -> VecTerms(NormalOf(q), d)
    [] q.f \in {"PointScaledNormalEvaluation", "IntegralMomentOfScaledNormalEvaluation", "IntegralMomentOfNormalEvaluation",
                "IntegralLegendreNormalMoment"} -> VecTerms(ScaledNormalOf(q), d)
    [] q.f \in {"PointEdgeTangentEvaluation", "IntegralMomentOfEdgeTangentEvaluation", "IntegralMomentOfTangentialEvaluation",
                "IntegralLegendreTangentialMoment"} -> VecTerms(IntRow(Tans(FEntV(q))[1]), d)
    [] q.f = "PointFaceTangentEvaluation" -> VecTerms(IntRow(Tans(FEntV(q))[q.i + 1]), d)
    [] q.f \in SymKinds -> MatTerms(OuterN(IntRow(q.v), IntRow(q.w)), d)
    [] q.f \in {"FrobeniusIntegralMoment", "MonkIntegralMoment"} -> VecTerms(IntRow(q.v), d)
    [] q.f = "IntegralMomentOfDivergence" -> [i \in 1..d |-> << One, UnitA(d, i), i >>]
    [] q.f = "IntegralMomentOfTensorDivergence" ->
         Flatten([i \in 1..d |-> [j \in 1..d |-> << FromInt(q.v[i]), UnitA(d, j), (i - 1) * d + j >>]])
    [] q.f = "IntegralMomentOfNormalNormalEvaluation" -> LET n == ScaledNormalOf(q) IN MatTerms(OuterN(n, n), d)
    \* the scaled normal and the tangent of an edge carry its length once each
    [] q.f = "IntegralLegendreNormalNormalMoment" -> LET n == IntRow(NormalDir(q)) IN MatTerms(OuterN(n, n), d)
    [] q.f = "IntegralLegendreNormalTangentialMoment" -> MatTerms(OuterN(IntRow(NormalDir(q)), IntRow(Tans(FEntV(q))[1])), d)
    \* (v x n) . (p x n) = (v . p)(n . n) - (v . n)(p . n)
    [] q.f = "IntegralMomentOfFaceTangentEvaluation" ->
         LET n == ScaledNormalOf(q)  p == IntRow(q.v)  nn == Dot(n, n)  pn == Dot(p, n) IN
         VecTerms([i \in 1..d |-> Sub(Mul(p[i], nn), Mul(n[i], pn))], d)

(* shifted Legendre polynomials in the second barycentric coordinate *)
Legendre01(n) == LET y(k) == << 0, k >> IN
  CASE n = 0 -> << << 1, y(0) >> >>
    [] n = 1 -> << << 2, y(1) >>, << -1, y(0) >> >>
    [] n = 2 -> << << 6, y(2) >>, << -6, y(1) >>, << 1, y(0) >> >>
    [] n = 3 -> << << 20, y(3) >>, << -30, y(2) >>, << 12, y(1) >>, << -1, y(0) >> >>
    [] OTHER -> << << 70, y(4) >>, << -140, y(3) >>, << 90, y(2) >>, << -20, y(1) >>, << 1, y(0) >> >>
(* integral of barycentric monomials over the reference cell, relative to its measure *)
RECURSIVE FactProd(_)
FactProd(a) == IF a = <<>> THEN 1 ELSE Fact(Head(a)) * FactProd(Tail(a))
MeanBary(p, k) == VSum([t \in 1..Len(p) |-> DivI(FromInt(p[t][1] * Fact(k) * FactProd(p[t][2])), Fact(SumSeq(p[t][2]) + k))])

RECURSIVE Falling(_, _)
Falling(m, n) == IF n = 0 THEN 1 ELSE m * Falling(m - 1, n - 1)
(* derivative of a monomial: << integer, exponents >>, the integer 0 when it vanishes *)
DMono(mu, al) == IF \E i \in 1..Len(mu) : al[i] > mu[i] THEN << 0, [i \in 1..Len(mu) |-> 0] >>
                 ELSE << ProdSeq([i \in 1..Len(mu) |-> Falling(mu[i], al[i])]), [i \in 1..Len(mu) |-> mu[i] - al[i]] >>

(* a monomial restricted to the entity with vertices V: a polynomial in barycentric coordinates *)
BaryForm(V, j) == SelectSeq([v \in 1..Len(V) |-> << V[v][j], UnitPt(Len(V), v) >>], LAMBDA t : t[1] # 0)
RECURSIVE OnSimplex_(_, _, _)
OnSimplex_(V, mu, j) == IF j > Len(mu) THEN << << 1, [v \in 1..Len(V) |-> 0] >> >>
                        ELSE IF mu[j] = 0 THEN OnSimplex_(V, mu, j + 1)
                        ELSE PMul(BaryForm(V, j), OnSimplex_(V, [mu EXCEPT ![j] = @ - 1], j))
IPow(x, n) == IF n = 0 THEN 1 ELSE x^n
(* value of the functional's measure on a monomial *)
Meas(q, V, m) ==
  IF m[1] = 0 THEN Zero
  ELSE IF q.f \in PointKinds THEN
    LET x == BaryPt(V, q.pt) IN DivI(FromInt(m[1] * ProdSeq([j \in 1..Len(x) |-> IPow(x[j], m[2][j])])), 12^SumSeq(m[2]))
  ELSE LET g == IF q.f \in LegendreKinds THEN Legendre01(q.i) ELSE << << 1, q.b >> >> IN
       Mul(MulI(MeanBary(PMul(g, OnSimplex_(V, m[2], 1)), FDimOf(q)), m[1]), RefMeas(q))

FFields(q) == LET d == UnitD(q.c) IN MIUpTo(d, IF Len(FShape(q)) = 2 /\ d = 3 THEN 2 ELSE 3)

FunVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  nc == ProdSeq(FShape(q))
      ms == FFields(q)  V == Deep(FEntV(q))
      np == Len(ev.pts)
      cols == [i \in 1..d |-> [p \in 1..np |-> ev.pts[p][i]]]
      pw == Deep(PowTab(cols, 3, np))
      terms == Deep(FTerms(q))
      \* what the recorded weights do to the monomial mu in component c
      Got(mu, c) == VSum([t \in 1..Len(ev.wts) |->
                      LET w == ev.wts[t]  m == DMono(mu, w.a) IN
                      IF w.c + 1 # c \/ m[1] = 0 THEN Zero
                      ELSE MulI(Mul(w.w, MonoVal([i \in 1..d |-> [k \in 1..4 |-> << pw[i][k][w.p + 1] >>]], m[2], 1, 1)[1]), m[1])])
      WantIn(mu, c) == VSum([t \in 1..Len(terms) |-> IF terms[t][3] # c THEN Zero ELSE Mul(terms[t][1], Meas(q, V, DMono(mu, terms[t][2])))])
      Close(x, y) == Near(x, y, Mul(Tol(24), OnePlus(Abs(y))))
      sym == q.f \in SymKinds
      cs == IF sym THEN (IF d = 1 THEN << <<1, 1>> >> ELSE LET s == SymPairs(d) IN
                           [i \in 1..Len(s) |-> << (s[i][1] - 1) * d + s[i][2], (s[i][2] - 1) * d + s[i][1] >>]) ELSE [c \in 1..nc |-> << c, c >>]
      bad == { << i, s >> \in (1..Len(ms)) \X (1..Len(cs)) :
                 LET mu == ms[i]  p == cs[s] IN
                 IF p[1] = p[2] THEN ~Close(Got(mu, p[1]), WantIn(mu, p[1]))
                 ELSE ~Close(Add(Got(mu, p[1]), Got(mu, p[2])), Add(WantIn(mu, p[1]), WantIn(mu, p[2]))) }
      shape == C("value shape", ev.shape = FShape(q)) \o C("order of derivatives", ev.order = FDOrder(q))
            \o C("weights", \A t \in 1..Len(ev.wts) : Len(ev.wts[t].a) = d /\ ev.wts[t].c \in 0..(nc - 1) /\ ev.wts[t].p \in 0..(np - 1) /\ IsNum(ev.wts[t].w))
            \o C("points", \A p \in 1..np : Len(ev.pts[p]) = d /\ AllNum(ev.pts[p]))
  IN IF shape # <<>> THEN shape ELSE
     C("action on polynomial fields", bad = {})
     \* calling it with a function
     \o C("called on functions", \A i \in 1..Len(ev.called) :
           LET r == ev.called[i] IN Close(r.x, WantIn(ms[r.m + 1], r.c + 1)))
     \* its row with respect to the expansion functions
     \o C("row of the expansion functions", Len(ev.riesz) = nc /\ \A c \in 1..nc :
           LET n == Len(ev.riesz[c]) IN
           /\ n = Len(ev.tabs[1].rows)
           /\ \A i \in 1..n :
                Close(ev.riesz[c][i],
                      VSum([t \in 1..Len(ev.wts) |-> LET w == ev.wts[t] IN
                            IF w.c + 1 # c THEN Zero ELSE Mul(w.w, ev.tabs[w.t + 1].rows[i][w.p + 1])])))

(* the matrix of a set of functionals has their rows *)
DSetVerdict(ev) ==
  LET n == Len(ev.fs) IN
  C("one row per functional", Len(ev.mat) = n /\ Len(ev.again) = n)
  \o C("rows of the functionals", \A i \in 1..n : NearRow(ev.mat[i], ev.rows[i], 28))
  \o C("the same when asked again", ev.mat = ev.again)
  \* the sum of all of them, as one functional, and in a set with the first
  \o C("order of derivatives of the sum", ev.order = MaxSeq([i \in 1..n |-> FDOrder(ev.fs[i])]))
  \o C("the sum of functionals", LET want == Deep([j \in 1..Len(ev.rows[1]) |-> VSum([i \in 1..n |-> ev.rows[i][j]])]) IN
         NearRow(ev.sum, want, 26) /\ NearRow(ev.insum, want, 26))
=============================================================================
