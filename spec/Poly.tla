-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Multi-indices, polynomials with integer coefficients, their values on    *)
(* lattices of rational points, numerical differentiation along lines,      *)
(* Dubiner polynomials, and the polynomial spaces the families document.    *)
(*                                                                         *)
(* A scalar polynomial is a sequence of terms << coefficient, exponents >>, *)
(* a field is a sequence of scalar polynomials (components, row-major).     *)
(***************************************************************************)
EXTENDS Num, Families

(* exponents of total degree k in d variables; all up to degree k *)
RECURSIVE MI(_, _)
MI(d, k) == IF d = 0 THEN (IF k = 0 THEN << <<>> >> ELSE <<>>)
            ELSE IF d = 1 THEN << <<k>> >>
            ELSE Flatten([i \in 1..(k + 1) |-> LET r == MI(d - 1, i - 1) IN
                           [j \in 1..Len(r) |-> << k - i + 1 >> \o r[j]]])
MIUpTo(d, k) == Flatten([j \in 1..(k + 1) |-> MI(d, j - 1)])

(* ---- integer polynomials ---- *)
Mono(e) == << << 1, e >> >>
PConst(d, c) == << << c, [i \in 1..d |-> 0] >> >>
ZeroP == <<>>
PVar(d, i) == << << 1, UnitPt(d, i) >> >>
PAdd(p, q) == p \o q
PScale(a, p) == [i \in 1..Len(p) |-> << a * p[i][1], p[i][2] >>]
PMul(p, q) == Flatten([i \in 1..Len(p) |-> [j \in 1..Len(q) |->
                 << p[i][1] * q[j][1], [k \in 1..Len(p[i][2]) |-> p[i][2][k] + q[j][2][k]] >>]])
RECURSIVE PProd(_)
PProd(ps) == IF Len(ps) = 1 THEN ps[1] ELSE PMul(ps[1], PProd(Tail(ps)))
(* barycentric coordinate of vertex v of the reference d-simplex *)
Bary(d, v) == IF v = 0 THEN PConst(d, 1) \o [i \in 1..d |-> << -1, UnitPt(d, i) >>] ELSE PVar(d, v)

(* ---- values on point columns ---- *)
(* cols[i][p] is coordinate i of point p *)
LatCols(pts, m) == [i \in 1..Len(pts[1]) |-> [p \in 1..Len(pts) |-> Rat(pts[p][i], m)]]
Ones(np) == [p \in 1..np |-> One]
Zeros(np) == [p \in 1..np |-> Zero]
RECURSIVE Powers(_, _, _)
Powers(col, k, np) == IF k = 0 THEN << Ones(np) >>
                      ELSE LET r == Powers(col, k - 1, np) IN Append(r, Deep(VMul(r[k], col)))
PowTab(cols, k, np) == [i \in 1..Len(cols) |-> Deep(Powers(cols[i], k, np))]
RECURSIVE MonoVal(_, _, _, _)
MonoVal(pw, e, i, np) == IF i > Len(e) THEN Ones(np)
   ELSE IF e[i] = 0 THEN MonoVal(pw, e, i + 1, np)
   ELSE VMul(pw[i][e[i] + 1], MonoVal(pw, e, i + 1, np))
RECURSIVE PolyVal(_, _, _)
PolyVal(pw, p, np) == IF p = <<>> THEN Zeros(np)
   ELSE VAdd(VScale(FromInt(p[1][1]), MonoVal(pw, p[1][2], 1, np)), PolyVal(pw, Tail(p), np))
(* a field as one flat row over (component, point) *)
FieldVal(pw, f, np) == Flatten([c \in 1..Len(f) |-> PolyVal(pw, f[c], np)])
PDegree(p) == IF p = <<>> THEN 0 ELSE LET s == [i \in 1..Len(p) |-> SumSeq(p[i][2])] IN MaxSeq(s)
FDegree(f) == MaxSeq([c \in 1..Len(f) |-> PDegree(f[c])])

-----------------------------------------------------------------------------
(* Differentiation of a polynomial of degree <= L from its values at the    *)
(* equispaced nodes 0..L of a line with spacing 1/m: row p of the matrix.   *)
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
DiffRow(L, p, m) ==
  [q \in 1..(L + 1) |->
     IF q - 1 = p
     THEN MulI(VSum([k \in 1..(L + 1) |-> IF k - 1 = p THEN Zero
                       ELSE IF p > k - 1 THEN Rat(1, p - k + 1) ELSE Neg(Rat(1, k - 1 - p))]), m)
     ELSE LET den == Choose(L, p) * (IF p > q - 1 THEN p - q + 1 ELSE q - 1 - p)
              s == Sgn(p + q - 1) * (IF p > q - 1 THEN 1 ELSE -1)
          IN Rat(s * Choose(L, q - 1) * m, den)]
(* the difference of order L+1 over the nodes 0..L+1 vanishes iff degree <= L *)
TopDiff(L) == [q \in 1..(L + 2) |-> FromInt(Sgn(q) * Choose(L + 1, q - 1))]

-----------------------------------------------------------------------------
(* Dubiner's orthogonal polynomials on the reference simplex, up to degree  *)
(* N, in the order of FIAT's expansion index, by their recurrences.         *)
(* Value columns over the points; x, y, z on the unit simplex.              *)
JRC(a, n) ==  \* P_{n+1}^{(a,0)} = (A x + B) P_n - C P_{n-1}, as numerator/denominator
  [A |-> << (2*n+1+a)*(2*n+2+a), 2*(n+1)*(n+1+a) >>,
   B |-> << a*a*(2*n+1+a), 2*(n+1)*(2*n+a)*(n+1+a) >>,
   C |-> << n*(n+a)*(2*n+2+a), (n+1)*(n+1+a)*(2*n+a) >>]
FracR(f) == IF f[1] = 0 THEN Zero ELSE DivI(FromInt(f[1]), f[2])
Cst(np, c) == [p \in 1..np |-> c]
Half == <<128, 0>>
Dub1(cols, N, np) ==     \* Legendre on [0,1]
  LET x == Deep([p \in 1..np |-> Sub(MulI(cols[1][p], 2), One)])
      RECURSIVE L(_)
      L(k) == IF k = 0 THEN << Ones(np) >> ELSE IF k = 1 THEN << Ones(np), x >>
              ELSE LET r == L(k - 1) IN
                   Append(r, Deep([p \in 1..np |-> Sub(DivI(MulI(Mul(x[p], r[k][p]), 2*k-1), k),
                                                  DivI(MulI(r[k-1][p], k-1), k))]))
  IN L(N)

(* principal functions phi_{p,0(,0)}: f1 multiplies, f2 damps *)
Principal(f1, f2, N, np) ==
  LET RECURSIVE G(_)
      G(k) == IF k = 0 THEN << Ones(np) >> ELSE IF k = 1 THEN << Ones(np), f1 >>
              ELSE LET r == G(k - 1) IN
                   Append(r, Deep([p \in 1..np |-> Sub(DivI(MulI(Mul(f1[p], r[k][p]), 2*k-1), k),
                                                  DivI(MulI(Mul(f2[p], r[k-1][p]), k-1), k))]))
  IN G(N)
(* ladder in the second index: base phi_{p,0}; lin * phi  etc.: values for q = 0..M *)
Ladder(base, a, y, g, gg, M, np) ==
  \* g = value multiplying B (1 in the last direction), gg multiplies C
  LET RECURSIVE G(_)
      G(q) == IF q = 0 THEN << base >>
              ELSE IF q = 1 THEN << base, Deep([p \in 1..np |->
                     Mul(base[p], Add(DivI(MulI(y[p], a + 2), 2), DivI(MulI(g[p], a), 2)))]) >>
              ELSE LET r == G(q - 1)  j == JRC(a, q - 1) IN
                   Append(r, Deep([p \in 1..np |->
                     Sub(Mul(Add(Mul(FracR(j.A), y[p]), Mul(FracR(j.B), g[p])), r[q][p]),
                         Mul(Mul(FracR(j.C), gg[p]), r[q-1][p]))]))
  IN G(M)
Dub2(cols, N, np) ==     \* a function from << p, q >> to value columns
  LET x == Deep([p \in 1..np |-> Sub(MulI(cols[1][p], 2), One)])
      y == Deep([p \in 1..np |-> Sub(MulI(cols[2][p], 2), One)])
      f1 == Deep([p \in 1..np |-> DivI(Add(Add(One, MulI(x[p], 2)), y[p]), 2)])
      h  == Deep([p \in 1..np |-> DivI(Sub(One, y[p]), 2)])
      f2 == Deep([p \in 1..np |-> Mul(h[p], h[p])])
      pr == Deep(Principal(f1, f2, N, np))
      one == Ones(np)
  IN [a \in 0..N |-> Deep(Ladder(pr[a + 1], 2*a + 1, y, one, one, N - a, np))]
Dub3(cols, N, np) ==
  LET x == Deep([p \in 1..np |-> Sub(MulI(cols[1][p], 2), One)])
      y == Deep([p \in 1..np |-> Sub(MulI(cols[2][p], 2), One)])
      z == Deep([p \in 1..np |-> Sub(MulI(cols[3][p], 2), One)])
      f1 == Deep([p \in 1..np |-> DivI(Add(Add(Add(FromInt(2), MulI(x[p], 2)), y[p]), z[p]), 2)])
      s  == Deep([p \in 1..np |-> DivI(Add(y[p], z[p]), 2)])
      f2 == Deep([p \in 1..np |-> Mul(s[p], s[p])])
      h  == Deep([p \in 1..np |-> DivI(Sub(One, z[p]), 2)])
      hh == Deep([p \in 1..np |-> Mul(h[p], h[p])])
      \* in the second direction: lin = (1 + 2y + z)/2 ... written with y' = y + (1+z)/2 and damping h
      yy == Deep([p \in 1..np |-> Add(y[p], DivI(Add(One, z[p]), 2))])
      pr == Deep(Principal(f1, f2, N, np))
      one == Ones(np)
  IN [a \in 0..N |-> LET row == Deep(Ladder(pr[a + 1], 2*a + 1, yy, h, hh, N - a, np)) IN
       [b \in 0..(N - a) |-> Deep(Ladder(row[b + 1], 2*a + 2*b + 2, z, one, one, N - a - b, np))]]
(* the squared norm of phi_{pqr} on the biunit simplex, as integers 2^(d) / den *)
(* all Dubiner values up to degree N as one sequence, with the total degree  *)
DubAll(d, cols, N, np) ==
  CASE d = 1 -> LET v == Dub1(cols, N, np) IN [i \in 1..(N+1) |-> [deg |-> i - 1, idx |-> <<i-1>>, val |-> v[i]]]
    [] d = 2 -> LET v == Dub2(cols, N, np) IN
                Flatten([k \in 1..(N+1) |-> [j \in 1..k |->     \* total degree k-1, q = j-1
                   [deg |-> k - 1, idx |-> <<k - j, j - 1>>, val |-> v[k - j][j]]]])
    [] d = 3 -> LET v == Dub3(cols, N, np) IN
                Flatten([k \in 1..(N+1) |-> Flatten([s \in 1..k |-> [j \in 1..s |->
                   \* p = k-s, q + r = s-1, r = j-1
                   [deg |-> k - 1, idx |-> <<k - s, s - j, j - 1>>, val |-> v[k - s][s - j][j]]]])])
=============================================================================
