------------------------------- MODULE JudgeCell -------------------------------
(***************************************************************************)
(* C13: reference cells.  Vertices, entities, inclusions, maps of entities  *)
(* into the cell, volumes, normals, tangents and lattices of points.        *)
(***************************************************************************)
EXTENDS JudgeTrace

(* simplices that do not follow the UFC convention, as documented           *)
OtherGeo(n) ==
  CASE n = "DefaultLine" -> [v |-> << <<-1>>, <<1>> >>, e |-> << << <<0>>, <<1>> >>, << <<0, 1>> >> >>]
    [] n = "DefaultTriangle" ->
         [v |-> << <<-1,-1>>, <<1,-1>>, <<-1,1>> >>,
          e |-> << << <<0>>, <<1>>, <<2>> >>, << <<1,2>>, <<2,0>>, <<0,1>> >>, << <<0,1,2>> >> >>]
    [] n = "DefaultTetrahedron" ->
         [v |-> << <<-1,-1,-1>>, <<1,-1,-1>>, <<-1,1,-1>>, <<-1,-1,1>> >>,
          e |-> << << <<0>>, <<1>>, <<2>>, <<3>> >>, << <<1,2>>, <<2,0>>, <<0,1>>, <<0,3>>, <<1,3>>, <<2,3>> >>,
                   << <<1,3,2>>, <<2,3,0>>, <<3,1,0>>, <<0,1,2>> >>, << <<0,1,2,3>> >> >>]
    [] n = "IntrepidTriangle" ->
         [v |-> << <<0,0>>, <<1,0>>, <<0,1>> >>,
          e |-> << << <<0>>, <<1>>, <<2>> >>, << <<0,1>>, <<1,2>>, <<2,0>> >>, << <<0,1,2>> >> >>]
    [] n = "IntrepidTetrahedron" ->
         [v |-> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>,
          e |-> << << <<0>>, <<1>>, <<2>>, <<3>> >>, << <<0,1>>, <<1,2>>, <<2,0>>, <<0,3>>, <<1,3>>, <<2,3>> >>,
                   << <<0,1,3>>, <<1,2,3>>, <<0,3,2>>, <<0,2,1>> >>, << <<0,1,2,3>> >> >>]
Other_(n) == [k |-> "other", n |-> n]
GV(c) == IF c.k = "other" THEN OtherGeo(c.n).v ELSE Verts(c)
GDim(c) == IF c.k = "other" THEN Len(GV(c)) - 1 ELSE Dim(c)
GCodes(c) == IF c.k = "other" THEN [i \in 1..(GDim(c) + 1) |-> << i - 1 >>] ELSE Codes(c)
GEnts(c, q) == IF c.k = "other" THEN OtherGeo(c.n).e[q[1] + 1] ELSE Ents(c, q)
GList(c) == IF c.k # "other" THEN EntList(c)
            ELSE Flatten([i \in 1..(GDim(c) + 1) |-> [e \in 1..Len(GEnts(c, << i - 1 >>)) |-> << << i - 1 >>, e - 1 >>]])
(* the entities as a table, for cells that are not tabulated in Cells.tla *)
GTab(c) == [q \in RangeOf(GCodes(c)) |-> GEnts(c, q)]
GSubT(T, gl, s) == LET vs == RangeOf(At(T[s[1]], s[2])) IN
              SelectSeq(gl, LAMBDA r : RangeOf(At(T[r[1]], r[2])) \subseteq vs)
GSub(c, s) == LET vs == RangeOf(At(GEnts(c, s[1]), s[2])) IN
              SelectSeq(GList(c), LAMBDA r : RangeOf(At(GEnts(c, r[1]), r[2])) \subseteq vs)
(* the reference cell of the entities of a dimension *)
GEntCell(c, q) ==
  IF c.k # "other" THEN EntCell(c, q)
  ELSE CASE q[1] = GDim(c) -> c
         [] q[1] = 0 -> Point
         [] c.n = "IntrepidTetrahedron" /\ q[1] = 2 -> Other_("IntrepidTriangle")
         [] c.n \in {"IntrepidTriangle", "IntrepidTetrahedron"} -> Simplex(q[1])
         [] OTHER -> Other_(IF q[1] = 1 THEN "DefaultLine" ELSE "DefaultTriangle")
ShapeCode(c) == CASE c.k = "simplex" -> c.d [] c.k = "prod" -> 99 [] c.k = "other" -> GDim(c)
                  [] OTHER -> IF Dim(c) = 2 THEN 11 ELSE 111
RECURSIVE NestOf(_)                       \* get_dimension()
NestOf(c) == IF c.k # "prod" THEN << GDim(c) >> ELSE Flatten([i \in 1..Len(c.c) |-> NestOf(c.c[i])])

IntRow(x) == [i \in 1..Len(x) |-> FromInt(x[i])]
PtsNear(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : AllNear(got[i], want[i], Tol(28))
IntPts(xs) == [i \in 1..Len(xs) |-> IntRow(xs[i])]
RatPts(xs, m) == [i \in 1..Len(xs) |-> [j \in 1..Len(xs[i]) |-> Rat(xs[i][j], m)]]

(* affinely independent points on every factor, numerators over 12 *)
RECURSIVE TPts(_)
TPts(c) ==
  CASE c.k = "other" -> TPts(Simplex(GDim(c)))
    [] c.k = "simplex" -> (CASE c.d = 0 -> << <<>> >> [] c.d = 1 -> << <<1>>, <<7>> >>
                             [] c.d = 2 -> << <<1,2>>, <<4,3>>, <<2,7>> >>
                             [] OTHER -> << <<1,2,3>>, <<4,1,2>>, <<2,5,1>>, <<0,3,4>> >>)
    [] c.k = "flat" -> TPts(c.c[1])
    [] OTHER -> LET cart == CartesianSeq([i \in 1..Len(c.c) |-> TPts(c.c[i])]) IN [i \in 1..Len(cart) |-> Flatten(cart[i])]
(* point of a simplex with vertices V and barycentric numerators over 12    *)
BaryPt(V, x) == [j \in 1..Len(V[1]) |-> (12 - SumSeq(x)) * V[1][j] + SumSeq([i \in 1..Len(x) |-> x[i] * V[i + 1][j]])]
EntV(c, s) == LET vs == At(GEnts(c, s[1]), s[2]) IN [i \in 1..Len(vs) |-> At(GV(c), vs[i])]
GEmbed(c, s, x) == IF c.k = "other" THEN BaryPt(EntV(c, s), x) ELSE Embed(c, s[1], s[2], x, 12)
Diff(a, b) == [j \in 1..Len(a) |-> a[j] - b[j]]
Tans(V) == [i \in 1..(Len(V) - 1) |-> Diff(V[i + 1], V[1])]
Det(M) == CASE Len(M) = 0 -> 1 [] Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2])
                        - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                        + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Gram(V) == LET T == Tans(V) IN Det([i \in 1..Len(T) |-> [j \in 1..Len(T) |-> DotI(T[i], T[j])]])
VolOK(x, V) == /\ IsNum(x) /\ ~IsNeg(x)
               /\ Near(MulI(Mul(x, x), Fact(Len(V) - 1) * Fact(Len(V) - 1)), FromInt(Gram(V)), Tol(26))

(* unit vector along an integer vector *)
UnitAlong(u, w) == /\ Len(u) = Len(w) /\ AllNum(u)
                   /\ Near(Dot(u, u), One, Tol(30))
                   /\ \A i \in 1..Len(w) : \A j \in 1..Len(w) : Near(MulI(u[i], w[j]), MulI(u[j], w[i]), Tol(28))
                   /\ ~IsNeg(Dot(u, IntRow(w)))
CrossI(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
(* a normal vector of a facet of a simplex from its tangents, and the outward one *)
RawNormal(V) == LET T == Tans(V) IN
  CASE Len(V[1]) = 1 -> << 1 >> [] Len(V[1]) = 2 -> << T[1][2], -T[1][1] >> [] OTHER -> CrossI(T[1], T[2])
Outward(c, e) ==
  LET d == GDim(c)  s == << << d - 1 >>, e >>  V == EntV(c, s)  vs == RangeOf(At(GEnts(c, s[1]), e))
      off == CHOOSE v \in 0..d : v \notin vs
      n == RawNormal(V) IN
  IF DotI(n, Diff(V[1], At(GV(c), off))) > 0 THEN n ELSE [j \in 1..d |-> -n[j]]
MaxI(w) == LET S == { IF w[i] < 0 THEN -w[i] ELSE w[i] : i \in 1..Len(w) } IN CHOOSE m \in S : \A x \in S : x <= m
RECURSIVE RefNormal(_, _, _)          \* numerators and denominator
RefNormal(c, q, e) ==
  CASE c.k \in {"simplex", "other"} -> LET n == Outward(c, e) IN RatPts(<< n >>, MaxI(n))[1]
    [] c.k = "flat" -> LET u == Unflatten(c.c[1], q[1], e) IN RefNormal(c.c[1], u[1], u[2])
    [] OTHER -> LET parts == SplitCode(c.c, q) IN
                Flatten([i \in 1..Len(c.c) |-> IF SumSeq(parts[i]) = Dim(c.c[i]) THEN [j \in 1..Dim(c.c[i]) |-> Zero]
                                                ELSE RefNormal(c.c[i], parts[i], e)])
GFacets(c) == SelectSeq(GList(c), LAMBDA s : SumSeq(s[1]) = GDim(c) - 1)

(* points of the lattice with n intervals, barycentric coordinates >= b, first coordinate fastest *)
RECURSIVE LatFrom(_, _, _)
LatFrom(lo, hi, d) == IF d = 0 THEN << <<>> >>
  ELSE Flatten([i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |->
         LET r == LatFrom(lo, hi - (lo + i - 1), d - 1) IN [j \in 1..Len(r) |-> Append(r[j], lo + i - 1)]])
LatPts(V, n, b) == LET d == Len(V) - 1  L == LatFrom(b, n - b, d) IN
  RatPts([i \in 1..Len(L) |-> [j \in 1..Len(V[1]) |->
            (n - SumSeq(L[i])) * V[1][j] + SumSeq([a \in 1..d |-> L[i][a] * V[a + 1][j]])]], n)

(* containment with a tolerance, quarters *)
RECURSIVE Inside(_, _, _)
Inside(c, x, eps) ==
  CASE c.k = "simplex" -> SumSeq(x) <= 4 + eps /\ \A i \in 1..Len(x) : x[i] >= -eps
    [] c.k = "flat" -> Inside(c.c[1], x, eps)
    [] OTHER -> LET xs == SplitPt([i \in 1..Len(c.c) |-> Dim(c.c[i])], x) IN \A i \in 1..Len(c.c) : Inside(c.c[i], xs[i], eps)
RECURSIVE HasPoint(_)                     \* the reference point does not say what it contains
HasPoint(c) == CASE c.k = "simplex" -> c.d = 0 [] c.k = "other" -> TRUE [] OTHER -> \E i \in 1..Len(c.c) : HasPoint(c.c[i])
Steps(d) == IF d > 3 THEN << -1, 1, 4, 5 >> ELSE << -1, 0, 1, 2, 4, 5 >>
BoxPts(d) == CartesianSeq([i \in 1..d |-> Steps(d)])

(* vertices and topology as recorded *)
SameCell(x, c) ==
  /\ PtsNear(x.v, IntPts(GV(c)))
  /\ LET ks == EntKeys(x.top)  T == Deep(GTab(c)) IN
     /\ NoDup(ks) /\ RangeOf(ks) = RangeOf(GList(c))
     /\ \A i \in 1..Len(x.top) : x.top[i].d = At(T[x.top[i].c], x.top[i].e)

CellVerdict(ev) ==
  LET c == ev.cell  d == GDim(c)  gl == Deep(GList(c))  qs == GCodes(c)
      T == Deep(GTab(c))  GVs == Deep(GV(c))
      EV(s) == LET vs == At(T[s[1]], s[2]) IN [i \in 1..Len(vs) |-> At(GVs, vs[i])]
      shape == C("vertices and topology", SameCell(ev.self, c))
            \o C("entities recorded", [i \in 1..Len(ev.ents) |-> << ev.ents[i].c, ev.ents[i].e >>] = gl)
            \o C("dimensions recorded", [i \in 1..Len(ev.subs) |-> ev.subs[i].c] = qs)
  IN IF shape # <<>> THEN shape ELSE
     C("dimension", ev.sd = d /\ ev.dim = NestOf(c))
     \o C("shape code", ev.shape = ShapeCode(c))
     \o C("contained entities", \A i \in 1..Len(gl) : ev.ents[i].sub = GSubT(T, gl, gl[i]))
     \o C("vertices of entities", \A i \in 1..Len(gl) : PtsNear(ev.ents[i].vs, IntPts(EV(gl[i]))))
     \o C("reference cells of entities", \A i \in 1..Len(qs) : SameCell(ev.subs[i].x, GEntCell(c, qs[i])))
     \o C("maps of entities", \A i \in 1..Len(gl) :
            LET ps == TPts(GEntCell(c, gl[i][1])) IN
            PtsNear(ev.ents[i].tr, RatPts([j \in 1..Len(ps) |-> GEmbed(c, gl[i], ps[j])], 12)))
     \o C("volume", IF c.k = "other" THEN VolOK(ev.vol, GV(c)) ELSE Near(MulI(ev.vol, InvVolume(c)), One, Tol(26)))
     \o C("reference normals", [i \in 1..Len(ev.rn) |-> << ev.rn[i].c, ev.rn[i].e >>] = (IF d = 0 THEN <<>> ELSE GFacets(c))
             /\ \A i \in 1..Len(ev.rn) : AllNear(ev.rn[i].n, RefNormal(c, ev.rn[i].c, ev.rn[i].e), Tol(28)))
     \o (IF HasPoint(c) THEN <<>> ELSE
         C("containment", LET b == BoxPts(d) IN Len(ev.in0) = Len(b) /\ Len(ev.in1) = Len(b)
              /\ \A i \in 1..Len(b) : ev.in0[i] = Inside(c, b[i], 0) /\ ev.in1[i] = Inside(c, b[i], 1)))
     \o (IF c.k = "prod" THEN <<>> ELSE
         C("connectivity", RangeOf([i \in 1..Len(ev.con) |-> << ev.con[i].a, ev.con[i].b >>]) = {<< a, b >> \in (0..d) \X (0..d) : b <= a}
             /\ \A i \in 1..Len(ev.con) :
                  LET a == ev.con[i].a  b == ev.con[i].b IN
                  ev.con[i].m = [e \in 1..Len(T[<< a >>]) |->
                     LET ss == SelectSeq(GSubT(T, gl, << << a >>, e - 1 >>), LAMBDA r : r[1] = << b >>)
                     IN [j \in 1..Len(ss) |-> ss[j][2]]]))
     \o (IF c.k \in {"simplex", "other"} THEN <<>> ELSE
         C("hypercubes", ev.cube = (IF c.k = "flat" THEN TRUE ELSE Boxlike(c)))
         \o C("flattened cell", \/ Boxlike(c) /\ Dim(c) > 3
                                \/ ev.flat = (CASE Dim(c) <= 1 -> "itself" [] ~Boxlike(c) -> "TypeError"
                                                [] Dim(c) = 2 -> "UFCQuadrilateral" [] OTHER -> "UFCHexahedron"))
         \o (IF c.k # "prod" THEN <<>> ELSE
             C("flattened entities", ev.ftop = [i \in 1..(Dim(c) + 1) |-> Ents_(Flat(c), << i - 1 >>)])
             \o C("unflattening map", Len(ev.unfl) = Len(gl) /\ \A i \in 1..Len(ev.unfl) :
                    Unflatten(c, ev.unfl[i].d, ev.unfl[i].e) = << ev.unfl[i].c, ev.unfl[i].n >>)))

(* simplices, whatever their convention *)
SimplexVerdict(ev) ==
  LET c == ev.cell  d == GDim(c)  gl == GList(c)  ufc == c.k = "simplex"
      shape == C("entities recorded", [i \in 1..Len(ev.ents) |-> << ev.ents[i].c, ev.ents[i].e >>] = gl)
            \o C("facets recorded", Len(ev.nrm) = (IF d = 0 THEN 0 ELSE d + 1) /\ Len(ev.snrm) = (IF d < 2 THEN 0 ELSE d + 1))
  IN IF shape # <<>> THEN shape ELSE
     C("volumes of entities", \A i \in 1..Len(gl) : VolOK(ev.ents[i].vol, EntV(c, gl[i])))
     \o C("tangents", \A i \in 1..Len(gl) : PtsNear(ev.ents[i].tan, IntPts(Tans(EntV(c, gl[i])))))
     \o C("normalized tangents", \A i \in 1..Len(gl) : LET T == Tans(EntV(c, gl[i])) IN
           Len(ev.ents[i].ntan) = Len(T) /\ \A j \in 1..Len(T) : UnitAlong(ev.ents[i].ntan[j], T[j]))
     \o C("edge tangents of entities", \A i \in 1..Len(gl) :
           LET V == EntV(c, gl[i])  n == Len(V)
               prs == Flatten([a \in 1..n |-> [b \in 1..(n - a) |-> << a, a + b >>]]) IN
           PtsNear(ev.ents[i].fet, IntPts([j \in 1..Len(prs) |-> Diff(V[prs[j][2]], V[prs[j][1]])])))
     \o C("tangents of edges", d = 0 \/ LET E == GEnts(c, << 1 >>) IN
           Len(ev.etan) = Len(E) /\ Len(ev.netan) = Len(E) /\ \A e \in 1..Len(E) :
             LET V == EntV(c, << << 1 >>, e - 1 >>)  w == Diff(V[2], V[1]) IN
             AllNear(ev.etan[e], IntRow(w), Tol(28)) /\ UnitAlong(ev.netan[e], w))
     \o C("tangents of faces", d # 3 \/ \A f \in 1..4 : PtsNear(ev.ftan[f], IntPts(Tans(EntV(c, << << 2 >>, f - 1 >>)))))
     \o C("normals of facets", \A e \in 1..Len(ev.nrm) :
           LET V == EntV(c, << << d - 1 >>, e - 1 >>) IN
           IF ~ufc \/ d = 1 THEN UnitAlong(ev.nrm[e], Outward(c, e - 1))
           ELSE IF d = 2 THEN UnitAlong(ev.nrm[e], RawNormal(V))
           ELSE LET w == [j \in 1..3 |-> -RawNormal(V)[j]] IN          \* length 2 by convention
                UnitAlong([j \in 1..3 |-> DivI(ev.nrm[e][j], 2)], w))
     \o C("scaled normals of facets", \A e \in 1..Len(ev.snrm) :
           LET V == EntV(c, << << d - 1 >>, e - 1 >>)  R == RawNormal(V)  O == Outward(c, e - 1) IN
           AllNear(ev.snrm[e],
                   IF ufc THEN IntRow(IF d = 2 THEN R ELSE [j \in 1..3 |-> -R[j]])
                   ELSE [j \in 1..d |-> DivI(FromInt(O[j]), Fact(d - 1))], Tol(28)))
     \o C("lattices of points", \A i \in 1..Len(gl) :
           /\ Len(ev.ents[i].mp) = 5
           /\ \A n \in 1..5 : PtsNear(ev.ents[i].mp[n],
                 IF SumSeq(gl[i][1]) = 0 THEN IntPts(EntV(c, gl[i])) ELSE LatPts(EntV(c, gl[i]), n, 1)))
     \o C("lattices between vertices", d = 0 \/ \A i \in 1..Len(ev.lat) :
           PtsNear(ev.lat[i].x, LatPts(GV(c), ev.lat[i].n, ev.lat[i].b)))
     \* the affine map from this simplex onto the points ys
     \o C("affine maps", \A i \in 1..Len(ev.aff) :
           LET r == ev.aff[i]  X == GV(c) IN
           \A v \in 1..Len(X) : \A j \in 1..Len(r.y[1]) :
             Near(Add(Dot(r.A[j], IntRow(X[v])), r.b[j]), FromInt(r.y[v][j]), Tol(26)))

RECURSIVE SameRec(_, _)
SameRec(a, b) == /\ a.k = b.k
                 /\ CASE a.k = "simplex" -> a.d = b.d [] a.k = "other" -> a.n = b.n
                      [] OTHER -> Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : SameRec(a.c[i], b.c[i])
CellEqVerdict(ev) ==
  LET n == Len(ev.cells) IN
  C("cells are equal when they are the same", \A i \in 1..n : \A j \in 1..n :
       LET same == SameRec(ev.cells[i], ev.cells[j]) IN
       ev.eq[i][j] = same /\ ev.ne[i][j] = ~same /\ (same => ev.hash[i][j]))
CellNameVerdict(ev) ==
  C("cells by name", \A i \in 1..Len(ev.names) : SameRec(ev.got[i], CellOf(ev.names[i])))
=============================================================================
