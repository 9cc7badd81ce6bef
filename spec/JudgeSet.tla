-------------------------------- MODULE JudgeSet --------------------------------
(***************************************************************************)
(* C14: orthonormal expansions, Jacobi polynomials and polynomial sets.     *)
(***************************************************************************)
EXTENDS JudgeCell, SetTerms

(* square root by bisection, 0 <= a <= 2^12 *)
RECURSIVE Bisect(_, _, _, _)
Bisect(a, lo, hi, k) == IF k = 0 THEN lo
   ELSE LET m == Deep(DivI(Add(lo, hi), 2)) IN IF Le(Mul(m, m), a) THEN Bisect(a, m, hi, k - 1) ELSE Bisect(a, lo, m, k - 1)
Sqrt(a) == Bisect(a, Zero, FromInt(64), 46)
(* normalisation on the biunit simplex: (k+1/2), (p+1/2)(p+q+1), (p+1/2)(p+q+1)(p+q+r+3/2) *)
Norm2(ix) == CASE Len(ix) = 1 -> Rat(2 * ix[1] + 1, 2)
               [] Len(ix) = 2 -> IF ix[1] + ix[2] = 0 THEN Rat(1, 2) ELSE Rat((2 * ix[1] + 1) * (ix[1] + ix[2] + 1), 2)
               [] OTHER -> Rat((2 * ix[1] + 1) * (ix[1] + ix[2] + 1) * (2 * (ix[1] + ix[2] + ix[3]) + 3), 4)
(* the triangle and tetrahedron keep their constant as it is at degree zero *)
NormAt(d, n, ix) == IF n = 0 /\ d > 1 THEN One ELSE Sqrt(Norm2(ix))

(* expansion values at columns of points of the unit simplex: value rows in FIAT's order *)
ExpRows(d, n, cols, np) ==
  IF d = 0 THEN << Ones(np) >>
  ELSE LET all == DubAll(d, cols, n, np) IN
       [k \in 1..Len(all) |-> LET s == Deep(NormAt(d, n, all[k].idx)) IN [p \in 1..np |-> Mul(s, all[k].val[p])]]
(* the lattice the tables are recorded on *)
SetLat(d, n) == SimplexLat(d, IF n = 0 THEN 2 ELSE n + 1)
SetCols(d, n) == LatCols(SetLat(d, n), IF n = 0 THEN 2 ELSE n + 1)
ExpOn(c, n) == LET d == UnitD(c)  l == SetLat(d, n) IN
               Deep(ExpRows(d, n, IF d = 0 THEN <<>> ELSE Deep(SetCols(d, n)), Len(l)))
NearRow(got, want, k) == AllNear(got, want, Mul(Tol(k), OnePlus(MaxAbs(want))))

ExpVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  N == NExp(q.c, q.n)  l == SetLat(d, q.n) IN
  C("number of expansion functions", ev.nm = N)
  \o C("table shape", RowsOK(ev.rows, N, Len(l)))
  \o (IF ~RowsOK(ev.rows, N, Len(l)) THEN <<>> ELSE
      LET E == ExpOn(q.c, q.n) IN C("orthonormal expansion", \A k \in 1..N : NearRow(ev.rows[k], E[k], 20)))
  \o C("no points, no values", ev.empty = 0)

GramVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  N == NExp(q.c, q.n)  np == Len(ev.w)
      J == IF BiunitCell(q.c) THEN 1 ELSE 2^d IN
  IF ~RowsOK(ev.rows, N, np) THEN << "table shape" >> ELSE
  C("orthogonal, of norm one on the biunit simplex", q.n = 0 \/ \A i \in 1..N : LET wi == VMul(ev.w, ev.rows[i]) IN \A j \in 1..i :
      Near(MulI(Dot(wi, ev.rows[j]), J), IF i = j THEN One ELSE Zero, Tol(24)))

(* ev.lines[j]: in direction j, nodes 0..L in steps of LineUnit from a base point; *)
(* slots: the multi-indices (as sequences of directions) and their rows       *)
LineUnit(L) == IF L > 9 THEN 16 ELSE 8
Differentiates(L, rows0, rows1, nf, nc) ==
  LET D == Deep([p \in 1..(L + 1) |-> DiffRow(L, p - 1, LineUnit(L))])
      ix == Deep([c \in 1..nc |-> [q \in 1..(L + 1) |-> (c - 1) * (L + 1) + q]]) IN
  \A f \in 1..nf : LET tol == Mul(Tol(18), OnePlus(MaxAbs(rows1[f]))) IN
     \A c \in 1..nc : \A p \in 1..(L + 1) : Near(SpDot(ix[c], D[p], rows0[f]), rows1[f][(c - 1) * (L + 1) + p], tol)

ExpDerivVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  N == NExp(q.c, q.n)  L == q.n + 1
      shape == C("lines", Len(ev.lines) = d)
            \o C("table shape", \A j \in 1..Len(ev.lines) : RowsOK(ev.lines[j].v, N, L + 1) /\ RowsOK(ev.lines[j].tab, N, L + 1)
                    /\ Len(ev.lines[j].g) = d /\ \A i \in 1..d : RowsOK(ev.lines[j].g[i], N, L + 1))
  IN IF shape # <<>> THEN shape ELSE
     C("values with derivatives are the values", \A j \in 1..d : \A f \in 1..N : NearRow(ev.lines[j].v[f], ev.lines[j].tab[f], 24))
     \o C("gradients are gradients of the values", \A j \in 1..d : Differentiates(L, ev.lines[j].tab, ev.lines[j].g[j], N, 1))

(* jets: data[r] holds a row per tuple of directions *)
Tuples_(d, r) == CartesianSeq([i \in 1..r |-> [j \in 1..d |-> j]])
JetVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  N == NExp(q.c, q.n)  L == q.n + 1
      shape == C("lines", Len(ev.lines) = d)
            \o C("jets of every order", \A j \in 1..Len(ev.lines) : Len(ev.lines[j].jet) = q.o + 1 /\
                 \A r \in 0..q.o : Len(ev.lines[j].jet[r + 1]) = d^r /\ \A s \in 1..(d^r) : RowsOK(ev.lines[j].jet[r + 1][s], N, L + 1))
  IN IF shape # <<>> THEN shape ELSE
     C("the jet begins with the values", \A j \in 1..d : \A f \in 1..N : NearRow(ev.lines[j].jet[1][1][f], ev.lines[j].tab[f], 24))
     \o C("jets are derivatives", \A j \in 1..d : \A r \in 0..(q.o - 1) :
           LET T == Tuples_(d, r)  U == Tuples_(d, r + 1) IN
           \A s \in 1..Len(T) : LET u == CHOOSE k \in 1..Len(U) : U[k] = Append(T[s], j) IN
             Differentiates(L, ev.lines[j].jet[r + 1][s], ev.lines[j].jet[r + 2][u], N, 1))

(* full sets: members e_comp * phi_k, comp row-major; symmetric ones e_ij + e_ji for i <= j *)
SetComps(q) == IF q.kind = "sym"
  THEN LET s == IF q.shape = <<>> THEN UnitD(q.c) ELSE q.shape[1] IN
       Flatten([i \in 1..s |-> [j \in 1..(s + 1 - i) |-> << (i - 1) * s + (i + j - 1), (i + j - 2) * s + i >>]])
  ELSE [i \in 1..ProdSeq(q.shape) |-> << i >>]
SetNC(q) == IF q.kind = "sym" THEN (IF q.shape = <<>> THEN UnitD(q.c)^2 ELSE q.shape[1]^2) ELSE ProdSeq(q.shape)
SetShape(q) == IF q.kind = "sym" /\ q.shape = <<>> THEN << UnitD(q.c), UnitD(q.c) >> ELSE q.shape
SetVerdict(ev) ==
  LET q == ev.q  d == UnitD(q.c)  N == NExp(q.c, q.n)  cs == SetComps(q)  nc == SetNC(q)  nm == N * Len(cs)
      l == SetLat(d, q.n)  np == Len(l)  al == ev.al  L == q.n + 1
      shape == C("number of members", ev.nm = nm)
            \o C("value shape", ev.shape = SetShape(q))
            \o C("degrees", ev.deg = q.n /\ ev.emb = q.n)
            \o C("derivatives up to the order asked for", RangeOf(al) = UNION { RangeOf(MI(d, k)) : k \in 0..q.o } /\ NoDup(al))
            \o C("table shape", RowsOK(ev.rows, nm, nc * np) /\ RowsOK(ev.new, nm, nc * np))
            \o C("lines", \A j \in 1..Len(ev.lines) : Len(ev.lines[j]) = Len(al) /\ \A a \in 1..Len(al) : RowsOK(ev.lines[j][a], nm, nc * (L + 1)))
  IN IF shape # <<>> THEN shape ELSE
     LET E == ExpOn(q.c, q.n)
         Want(m) == LET comp == ((m - 1) \div N) + 1  k == ((m - 1) % N) + 1 IN
            Flatten([c \in 1..nc |-> IF \E x \in 1..Len(cs[comp]) : cs[comp][x] = c THEN E[k] ELSE Zeros(np)])
         Find(a) == CHOOSE n \in 1..Len(al) : al[n] = a IN
     C("members of a full set", \A m \in 1..nm : LET w == Deep(Want(m)) IN NearRow(ev.rows[m], w, 20) /\ NearRow(ev.new[m], w, 20))
     \o C("derivatives of members", q.o = 0 \/ \A j \in 1..Len(ev.lines) : \A a \in 1..Len(al) : SumSeq(al[a]) < q.o =>
           Differentiates(L, ev.lines[j][a], ev.lines[j][Find(AddA(al[a], UnitA(d, j)))], nm, nc))

(* programs: the union of the groups, one after another *)
IntDot(c, r) == Dot(c, IntRow(r))
ProgVerdict(ev) ==
  LET q == ev.q  M == SetSize(q)  R == Deep(AllRows(q))  rk == RankI(R)  l == SetLat(UnitD(q.c), q.n)
      shape == C("the members recorded", ev.rows = R)
            \o C("as many members as the span has dimensions", Len(ev.co) = IF Len(q.g) = 1 THEN Len(R) ELSE rk)
            \o C("coefficients", \A i \in 1..Len(ev.co) : Len(ev.co[i]) = M)
            \o C("value shape", ev.shape = q.shape)
  IN IF shape # <<>> THEN shape ELSE
     IF Len(q.g) = 1 THEN C("members taken or combined", \A i \in 1..Len(R) : AllNear(ev.co[i], IntRow(R[i]), Tol(30)))
     ELSE
     C("orthonormal members", \A i \in 1..rk : \A j \in 1..i : Near(Dot(ev.co[i], ev.co[j]), IF i = j THEN One ELSE Zero, Tol(28)))
     \o C("the union contains what it is made from", \A i \in 1..Len(R) :
           LET a == [k \in 1..rk |-> IntDot(ev.co[k], R[i])] IN AllNear(LinComb(a, ev.co), IntRow(R[i]), Tol(26)))
ProgTabVerdict(ev) ==                    \* tabulation is the combination of the expansion
  LET q == ev.q  M == SetSize(q)  N == NExp(q.c, q.n)  nc == ProdSeq(q.shape)  np == Len(SetLat(UnitD(q.c), q.n)) IN
  IF ~RowsOK(ev.tab, Len(ev.co), nc * np) \/ (\E i \in 1..Len(ev.co) : Len(ev.co[i]) # M) THEN << "table shape" >> ELSE
  LET E == ExpOn(q.c, q.n) IN
  C("tables of recombined sets", \A i \in 1..Len(ev.co) :
     NearRow(ev.tab[i], Flatten([c \in 1..nc |-> LinComb(SubSeq(ev.co[i], (c - 1) * N + 1, c * N), E)]), 20))

ProjVerdict(ev) == C("coefficients of the projection", AllNear(ev.got, IntRow(ev.want), Tol(22)))

(* Jacobi polynomials in closed form: sum of C(n+a, n-s) C(n+b, s) ((x-1)/2)^s ((x+1)/2)^(n-s) *)
JacPoly(a, b, n, x8) ==                  \* x = x8 / 8
  IF n < 0 THEN Zero ELSE
  LET u == Rat(x8 - 8, 16)  v == Rat(x8 + 8, 16)
      RECURSIVE Pw(_, _)
      Pw(y, k) == IF k = 0 THEN One ELSE Mul(y, Pw(y, k - 1)) IN
  VSum([s \in 1..(n + 1) |-> MulI(MulI(Mul(Pw(u, s - 1), Pw(v, n - s + 1)), Choose(n + a, n - s + 1)), Choose(n + b, s - 1))])
JPolyVerdict(ev) ==
  LET q == ev.q  a == q.shape[1]  b == q.shape[2]  n == q.n  np == 17
      shape == C("table shape", RowsOK(ev.val, n + 1, np) /\ RowsOK(ev.der, n + 1, np) /\ Len(ev.val1) = np /\ Len(ev.der1) = np)
  IN IF shape # <<>> THEN shape ELSE
     LET V == Deep([k \in 1..(n + 1) |-> [p \in 1..np |-> JacPoly(a, b, k - 1, p - 9)]])
         W == Deep([k \in 1..(n + 1) |-> [p \in 1..np |-> DivI(MulI(JacPoly(a + 1, b + 1, k - 2, p - 9), a + b + k), 2)]]) IN
     C("Jacobi polynomials", (\A k \in 1..(n + 1) : NearRow(ev.val[k], V[k], 20)) /\ NearRow(ev.val1, V[n + 1], 20))
     \o C("derivatives of Jacobi polynomials", (\A k \in 1..(n + 1) : NearRow(ev.der[k], W[k], 20)) /\ NearRow(ev.der1, W[n + 1], 20))

DimsVerdict(ev) ==
  LET d == UnitD(ev.q.c) IN
  C("dimensions of polynomial spaces", \A n \in 0..8 : d = 0 \/ (ev.dims[n + 1] = Choose(n + d, d) /\ ev.nums[n + 1] = Choose(n + d, d)))
  \o C("multi-indices", \A m \in 1..3 : \A n \in 0..5 : ev.mis[m][n + 1] = MI(m, n))
=============================================================================
