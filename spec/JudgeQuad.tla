------------------------------ MODULE JudgeQuad ------------------------------
(* C07: what a quadrature rule promises. *)
EXTENDS JudgeTab, Rules

(* coordinates of the recorded points on the unit cell, per coordinate *)
QCols(ev, d) == [i \in 1..d |-> [p \in 1..Len(ev.pts) |->
                   IF Biunit(ev.q.c) THEN DivI(Add(ev.pts[p][i], One), 2) ELSE ev.pts[p][i]]]
InClosed(cell, x, tol) == OnEntity(cell, TopCode(cell), 0, x, tol)
(* rules made of Gauss rules *)
RECURSIVE GaussMade(_)
GaussMade(r) == CASE r.r = "tensor" -> \A i \in 1..Len(r.p) : GaussMade(r.p[i])
                  [] r.r = "create" -> r.v \in {"canonical", "KMV"} \/ \A i \in 1..Len(RuleDims(r)) : RuleDims(r)[i] <= 1
                  [] OTHER -> TRUE
(* weighted sums of all products of Dubiner polynomials of the factors *)
RECURSIVE Moments_(_, _, _, _, _, _)
Moments_(tabs, i, row, const, vol, tol) ==
  IF i > Len(tabs) THEN Near(VSum(row), IF const THEN vol ELSE Zero, tol)
  ELSE \A f \in 1..Len(tabs[i]) :
         Moments_(tabs, i + 1, IF tabs[i][f].deg = 0 THEN row ELSE VMul(row, tabs[i][f].val), const /\ tabs[i][f].deg = 0, vol, tol)

QuadVerdict(ev) ==
  LET q == ev.q  cell == RuleCell(q)  d == Dim(cell)  np == Len(ev.pts)
      ds == RuleDims(q)  ex == Exact(q)
      shape == C("as many weights as points", Len(ev.w) = np /\ np >= 1)
            \o C("points of the dimension of the cell", \A p \in 1..np : Len(ev.pts[p]) = d)
            \o C("documented number of points", NPoints(q) = None \/ NPoints(q) = np)
            \o C("finite points and weights", AllNum(ev.w) /\ \A p \in 1..np : AllNum(ev.pts[p]))
  IN IF shape # <<>> THEN shape ELSE
     LET cols == Deep(QCols(ev, d))
         w == IF Biunit(q.c) THEN [p \in 1..np |-> DivI(ev.w[p], 2^d)] ELSE ev.w
         off(i) == SumSeq(SubSeq(ds, 1, i - 1))
         tabs == Deep([i \in 1..Len(ds) |-> IF ds[i] = 0 THEN << [deg |-> 0, val |-> Ones(np)] >> ELSE
                    LET all == DubAll(ds[i], SubSeq(cols, off(i) + 1, off(i) + ds[i]), ex[i], np) IN
                    [f \in 1..Len(all) |-> [deg |-> all[f].deg, val |-> all[f].val]]])
         vol == Rat(1, InvVolume(cell))
         \* the rule on a face of the tetrahedron integrates over a face of twice the area of its projection, or more
         f(x) == Add(One, VSum([i \in 1..d |-> MulI(x[i], i + 1)]))
     IN C("points lie in the cell", \A p \in 1..np : InClosed(cell, [i \in 1..d |-> cols[i][p]], Tol(26)))
        \o C("the weights sum to the volume", Near(VSum(w), vol, Tol(24)))
        \o C("exact up to the promised degree", Moments_(tabs, 1, w, TRUE, vol, Tol(22)))
        \o (IF GaussMade(q) THEN C("weights are positive", \A p \in 1..np : ~IsNeg(w[p]) /\ ~Near(w[p], Zero, Tol(34))) ELSE <<>>)
        \o C("integrate() is the weighted sum", Near(ev.int, VSum([p \in 1..np |-> Mul(ev.w[p], f(ev.pts[p]))]), Tol(24)))
        \o (IF q.r = "GLL" THEN C("the ends belong to the rule", \E a \in 1..np : \E b \in 1..np :
               Near(cols[1][a], Zero, Tol(26)) /\ Near(cols[1][b], One, Tol(26))) ELSE <<>>)
        \o (IF q.r = "GR" THEN C("one end belongs to the rule", \E a \in 1..np :
               Near(cols[1][a], IF q.v = "right" THEN One ELSE Zero, Tol(26))) ELSE <<>>)

(* a rule mapped to a face of the tetrahedron: the points are the images of *)
(* the rule of the reference triangle, the weights are scaled by the square *)
(* root of the Gram determinant of the face                                 *)
FaceQuadVerdict(ev) ==
  LET np == Len(ev.ref)  fc == ev.face
      T == Tangents(Tetra, <<2>>, fc)
      o == Embed(Tetra, <<2>>, fc, <<0, 0>>, 1)
      gram == DotI(T[1], T[1]) * DotI(T[2], T[2]) - DotI(T[1], T[2]) * DotI(T[1], T[2])
      shape == C("as many weights as points", Len(ev.pts) = np /\ Len(ev.w) = np /\ Len(ev.refw) = np /\ np = ev.q.n[1]^2)
  IN IF shape # <<>> THEN shape ELSE
     C("points on the face", \A p \in 1..np : AllNear(ev.pts[p],
          [j \in 1..3 |-> Add(FromInt(o[j]), Add(MulI(ev.ref[p][1], T[1][j]), MulI(ev.ref[p][2], T[2][j])))], Tol(26)))
     \o C("weights scaled by the area of the face", \A p \in 1..np :
          Near(Mul(ev.w[p], ev.w[p]), MulI(Mul(ev.refw[p], ev.refw[p]), gram), Tol(26)) /\ ~IsNeg(ev.w[p]))
     \o C("jacobian", ev.J = [j \in 1..3 |-> << T[1][j], T[2][j] >>])

(* Gauss-Jacobi: moments of t^k, t = (1+x)/2 *)
JacobiVerdict(ev) ==
  LET a == ev.q.n[1]  b == ev.q.n[2]  n == ev.q.n[3]
      shape == C("as many weights as points", Len(ev.x) = n /\ Len(ev.w) = n)
  IN IF shape # <<>> THEN shape ELSE
     LET t == [p \in 1..n |-> DivI(Add(ev.x[p], One), 2)]
         pw == Deep(Powers(t, 2 * n - 1, n)) IN
     C("points inside the interval", \A p \in 1..n : ~IsNeg(t[p]) /\ ~IsNeg(Sub(One, t[p])))
     \o C("exact moments", \A k \in 0..(2 * n - 1) : Near(Dot(ev.w, pw[k + 1]), JacobiMoment(a, b, k), Tol(22)))
=============================================================================
