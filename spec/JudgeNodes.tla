------------------------------- MODULE JudgeNodes -------------------------------
(***************************************************************************)
(* Elements given by formulas and by points.                                *)
(* C18: which functions live on which entities.                             *)
(* C20: Bernstein elements.  C22: collocated elements.  C23: pointwise duals*)
(***************************************************************************)
EXTENDS JudgeReq

-----------------------------------------------------------------------------
(* C18: a function is listed for an entity exactly when it does not vanish   *)
(* there.  ev.mx[i].m: largest absolute value of every function on a lattice *)
(* of the entity which is unisolvent for traces of functions of the element. *)
SuppVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  nd == SpaceDim(t)  el == Deep(EntList(c))
      shape == C("entities recorded", [i \in 1..Len(ev.mx) |-> << ev.mx[i].c, ev.mx[i].e >>] = el)
            \o C("functions recorded", \A i \in 1..Len(ev.mx) : Len(ev.mx[i].m) = nd)
            \o C("degree of the lattice", ev.L >= LineDeg(t))
            \o C("every entity has its list", \A n \in 1..Len(ev.asked) : LET ks == EntKeys(ev.asked[n].ent) IN
                   NoDup(ks) /\ RangeOf(ks) = { s \in RangeOf(el) : s[1] = ev.asked[n].c })
            \o C("every dimension is asked for, and one of them twice",
                   { ev.asked[n].c : n \in 1..Len(ev.asked) } = { s[1] : s \in RangeOf(el) } /\ Len(ev.asked) > Cardinality({ s[1] : s \in RangeOf(el) }))
  IN IF shape # <<>> THEN shape ELSE
     Flatten([n \in 1..Len(ev.asked) |-> Flatten([x \in 1..Len(ev.asked[n].ent) |->
       LET r == ev.asked[n].ent[x]
           i == CHOOSE j \in 1..Len(el) : el[j] = << r.c, r.e >>
           m == ev.mx[i].m IN
       C("functions in order, each once", NoDup(r.d) /\ \A k \in 1..Len(r.d) : r.d[k] \in 0..(nd - 1) /\ (k > 1 => r.d[k - 1] < r.d[k]))
       \o C("functions which do not vanish on the entity are listed", \A k \in 1..nd : Le(m[k], Tol(9)) \/ (k - 1) \in RangeOf(r.d))
       \o C("functions which vanish on the entity are not listed", \A k \in 1..nd : (k - 1) \in RangeOf(r.d) => ~Le(m[k], Tol(24)))])])

-----------------------------------------------------------------------------
(* polynomials in barycentric coordinates with integer coefficients *)
BDiff(p, j) == LET all == Flatten([i \in 1..Len(p) |-> LET a == p[i][2] IN
                    << << p[i][1] * a[j + 1], [v \in 1..Len(a) |-> IF v = j + 1 THEN a[v] - 1 ELSE a[v]] >>,
                       << -(p[i][1] * a[1]), [v \in 1..Len(a) |-> IF v = 1 THEN a[v] - 1 ELSE a[v]] >> >>])
               IN SelectSeq(all, LAMBDA x : x[1] # 0)
RECURSIVE BDiffs(_, _)
BDiffs(p, al) == IF \A j \in 1..Len(al) : al[j] = 0 THEN p
                 ELSE LET j == CHOOSE i \in 1..Len(al) : al[i] > 0 IN BDiffs(BDiff(p, j), [al EXCEPT ![j] = @ - 1])
RECURSIVE Multinom(_)
Multinom(a) == IF Len(a) = 1 THEN 1 ELSE Choose(SumSeq(a), a[1]) * Multinom(Tail(a))
BernPoly(a) == << << Multinom(a), a >> >>
SuppOf(a) == SelectSeq([v \in 1..Len(a) |-> v - 1], LAMBDA v : a[v + 1] > 0)
BaryLat(ps) == LatCols([p \in 1..Len(ps) |-> << 12 - SumSeq(ps[p]) >> \o ps[p]], 12)
BernVerdict(ev) ==
  LET t == ev.t  c == CellOf(t.c)  d == c.d  k == t.k  el == Deep(EntList(c))
      nd == Choose(k + d, d)  ps == GenPts(c)  np == Len(ps)
      all == Flatten([i \in 1..Len(ev.ent) |-> ev.ent[i].d])
      shape == C("dofs partition", RangeOf(EntKeys(ev.ent)) = RangeOf(el) /\ NoDup(EntKeys(ev.ent)) /\ NoDup(all) /\ RangeOf(all) = 0..(nd - 1))
            \o C("derivatives asked for", NoDup(ev.al) /\ RangeOf(ev.al) = AlphasUpTo(d, ev.order) /\ ev.al[1] = [i \in 1..d |-> 0])
            \o C("points", ev.pts = ps)
            \o C("tables", \A i \in 1..Len(ev.al) : RowsOK(ev.rows[i], nd, np))
  IN IF shape # <<>> THEN shape ELSE
     LET pw == Deep(PowTab(BaryLat(ps), k, np))
         A == Deep(MI(d + 1, k))
         V == Deep([n \in 1..Len(A) |-> PolyVal(pw, BernPoly(A[n]), np)])
         own(s) == LET vs == RangeOf(EntVerts(c, s[1], s[2])) IN { n \in 1..Len(A) : RangeOf(SuppOf(A[n])) = vs }
         is(f, n) == NearRow(ev.rows[1][f + 1], V[n], 24)
         D == Deep(DofMap(ev.ent, el))
         match == C("functions of an entity are the Bernstein polynomials of its vertices", \A s \in RangeOf(el) :
                       /\ Len(D[s]) = Cardinality(own(s))
                       /\ \A i \in 1..Len(D[s]) : \E n \in own(s) : is(D[s][i], n)
                       /\ \A n \in own(s) : \E i \in 1..Len(D[s]) : is(D[s][i], n))
     IN IF match # <<>> THEN match ELSE
        C("derivatives are those of the Bernstein polynomials", \A s \in RangeOf(el) : \A i \in 1..Len(D[s]) :
            LET n == CHOOSE n \in own(s) : is(D[s][i], n) IN
            \A a \in 1..Len(ev.al) : NearRow(ev.rows[a][D[s][i] + 1], PolyVal(pw, BDiffs(BernPoly(A[n]), ev.al[a]), np), 20))

-----------------------------------------------------------------------------
(* C22 *)
(* Legendre polynomials at s = 2x - 1 *)
RECURSIVE Leg2(_, _)
Leg2(n, s) == IF n = 0 THEN << Zero, One >>           \* degrees n - 1 and n
              ELSE LET r == Leg2(n - 1, s) IN
                   << r[2], DivI(Sub(MulI(Mul(s, r[2]), 2 * n - 1), MulI(r[1], n - 1)), n) >>
Lg(n, x) == Deep(Leg2(n, Sub(MulI(x, 2), One)))
Apart(xs) == \A i \in 1..Len(xs) : \A j \in 1..Len(xs) : i # j => ~AllNear(xs[i], xs[j], Tol(16))
SamePts(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : AllNear(a[i], b[j], Tol(26))
                 /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : AllNear(a[i], b[j], Tol(26))
EntLat(c, s, k) == LatPts(EntV(c, s), k, 1)
NodesVerdict(ev) ==
  LET t == ev.t  c == CellOf(t.c)  d == Dim(c)  k == t.k  el == Deep(EntList(c))  n == Len(ev.x)
      all == Flatten([i \in 1..Len(ev.ent) |-> ev.ent[i].d])
      shape == C("dofs partition", RangeOf(EntKeys(ev.ent)) = RangeOf(el) /\ NoDup(all) /\ RangeOf(all) = 0..(n - 1))
            \o C("functionals are values at points of the cell", \A i \in 1..n : Len(ev.x[i]) = d /\ ev.one[i])
            \o C("identity at the nodes", RowsOK(ev.rows, n, n) /\ \A i \in 1..n : \A j \in 1..n : Near(ev.rows[i][j], IF i = j THEN One ELSE Zero, Tol(22)))
            \o C("nodes are distinct", Apart(ev.x))
      D == Deep(DofMap(ev.ent, el))
      at(s) == [i \in 1..Len(D[s]) |-> ev.x[D[s][i] + 1]]
      x(i) == ev.x[i][1]
  IN IF shape # <<>> THEN shape ELSE
     CASE t.f = "CG" -> C("equispaced nodes of the entity", \A s \in RangeOf(el) :
                            SamePts(at(s), IF s[1] = <<0>> THEN RatPts(EntV(c, s), 1) ELSE EntLat(c, s, k)))
       [] t.f = "DG" -> C("equispaced nodes of the cell", IF k = 0 THEN n = 1 /\ AllNear(ev.x[1], [j \in 1..d |-> Rat(1, d + 1)], Tol(26))
                                                          ELSE SamePts(ev.x, LatPts(EntV(c, << <<d>>, 0 >>), k, 0)))
       [] t.f = "GL" -> C("nodes are the zeros of the Legendre polynomial", n = k + 1 /\ \A i \in 1..n : Near(Lg(k + 1, x(i))[2], Zero, Tol(20)))
       [] t.f = "GLL" -> C("nodes are the end points and the extrema of the Legendre polynomial", n = k + 1 /\ \A i \in 1..n :
                             LET l == Lg(k, x(i)) IN Near(Sub(l[1], Mul(Sub(MulI(x(i), 2), One), l[2])), Zero, Tol(20)))
                         \o C("end points belong to the vertices", \A v \in 0..1 : SamePts(at(<< <<0>>, v >>), << << FromInt(v) >> >>))
       [] t.f = "GR" -> C("nodes are the right Radau points", n = k + 1 /\ \A i \in 1..n : LET l == Lg(k + 1, x(i)) IN Near(Sub(l[1], l[2]), Zero, Tol(20)))
       [] t.f = "KMV" -> C("nodes are the points of the lumping rule", SamePts(ev.x, ev.q))
                         \o C("lumped masses are positive and add up", (\A i \in 1..Len(ev.w) : Le(Tol(16), ev.w[i])) /\ Near(VSum(ev.w), Rat(1, ProdSeq([i \in 1..d |-> i])), Tol(24)))
                         \o C("nodes lie on their entities", \A s \in RangeOf(el) : \A i \in 1..Len(at(s)) : OnEntity(c, s[1], s[2], at(s)[i], Tol(26)))
       [] OTHER -> C("all dofs belong to the cell", Len(D[<< TopCode(c), 0 >>]) = n)
                   \o C("the element has the points and weights of the rule", SamePts(ev.x, ev.q) /\ AllNear(ev.kept, ev.w, Tol(30)))
                   \o C("no other request is answered", \A i \in 1..Len(ev.refused) : ev.refused[i])

(* C23: the functionals of a pointwise dual are numbered as those of the element *)
PointwiseVerdict(ev) == C("numbering of the element", LET el == EntList(CellT(ev.t)) IN
   /\ RangeOf(EntKeys(ev.ent)) = RangeOf(el) /\ RangeOf(EntKeys(ev.own)) = RangeOf(el)
   /\ DofMap(ev.ent, el) = DofMap(ev.own, el))
=============================================================================
