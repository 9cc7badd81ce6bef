------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Reference cells: UFC simplices, products of cells, flattened hypercubes. *)
(* All UFC reference vertices have 0/1 coordinates, so the whole geometry   *)
(* of a cell (vertices, entity numbering, entity embeddings, lattices,      *)
(* normals, tangents) is exact integer arithmetic here.                     *)
(*                                                                         *)
(* A dimension of a cell is coded as the sequence of the dimensions of its  *)
(* elementary factors: <<1>> for the edges of a triangle, <<2,1>> for       *)
(* triangle x interval.  Vertices, entities and dofs are numbered from 0.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Deep

Simplex(d) == [k |-> "simplex", d |-> d]
Prod(cs)   == [k |-> "prod", c |-> cs]
Flat(p)    == [k |-> "flat", c |-> <<p>>]

Point == Simplex(0)   Interval == Simplex(1)   Triangle == Simplex(2)   Tetra == Simplex(3)
Quad == Flat(Prod(<<Interval, Interval>>))
Hex  == Flat(Prod(<<Interval, Interval, Interval>>))

(* the cells a user can name *)
CellNames == {"vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron",
  "interval * interval", "triangle * interval", "interval * triangle", "quadrilateral * interval",
  "interval * interval * interval", "(interval * interval) * interval", "interval * (interval * interval)",
  "interval * quadrilateral", "triangle * quadrilateral", "triangle * triangle", "vertex * interval",
  "vertex * triangle"}
CellOf(n) ==
  CASE n = "vertex" -> Point [] n = "interval" -> Interval [] n = "triangle" -> Triangle
    [] n = "tetrahedron" -> Tetra [] n = "quadrilateral" -> Quad [] n = "hexahedron" -> Hex
    [] n = "interval * interval" -> Prod(<<Interval, Interval>>)
    [] n = "triangle * interval" -> Prod(<<Triangle, Interval>>)
    [] n = "interval * triangle" -> Prod(<<Interval, Triangle>>)
    [] n = "quadrilateral * interval" -> Prod(<<Quad, Interval>>)
    [] n = "interval * quadrilateral" -> Prod(<<Interval, Quad>>)
    [] n = "triangle * quadrilateral" -> Prod(<<Triangle, Quad>>)
    [] n = "triangle * triangle" -> Prod(<<Triangle, Triangle>>)
    [] n = "vertex * interval" -> Prod(<<Point, Interval>>)
    [] n = "vertex * triangle" -> Prod(<<Point, Triangle>>)
    [] n = "interval * interval * interval" -> Prod(<<Interval, Interval, Interval>>)
    [] n = "(interval * interval) * interval" -> Prod(<<Prod(<<Interval, Interval>>), Interval>>)
    [] n = "interval * (interval * interval)" -> Prod(<<Interval, Prod(<<Interval, Interval>>)>>)

-----------------------------------------------------------------------------
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
SMap(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, r) == IF r < 0 \/ n < r THEN 0 ELSE IF r = 0 THEN 1 ELSE (Choose(n - 1, r - 1) * n) \div r
(* zero-based access *)
At(s, i) == s[i + 1]

(* cartesian product of a sequence of sequences, last index fastest *)
RECURSIVE CartTail(_)
CartTail(ss) ==
  IF ss = <<>> THEN << <<>> >>
  ELSE LET rest == CartTail(Tail(ss)) IN
       Flatten([i \in 1..Len(Head(ss)) |-> [j \in 1..Len(rest) |-> << Head(ss)[i] >> \o rest[j]]])
CartesianSeq(ss) == CartTail(ss)

(* increasing k-element subsequences of 0..n-1, lexicographically increasing *)
RECURSIVE IncSeqs(_, _, _)
IncSeqs(lo, n, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF lo > n - k THEN <<>>
  ELSE LET rest == IncSeqs(lo + 1, n, k - 1) IN
       [j \in 1..Len(rest) |-> << lo >> \o rest[j]] \o IncSeqs(lo + 1, n, k)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
RECURSIVE Dim(_)
Dim(c) == CASE c.k = "simplex" -> c.d
            [] c.k = "flat" -> Dim(c.c[1])
            [] OTHER -> SumSeq([i \in 1..Len(c.c) |-> Dim(c.c[i])])

RECURSIVE Width(_)                   \* length of a dimension code
Width(c) == IF c.k # "prod" THEN 1 ELSE SumSeq([i \in 1..Len(c.c) |-> Width(c.c[i])])

RECURSIVE TopCode(_)
TopCode(c) == IF c.k # "prod" THEN << Dim(c) >> ELSE Flatten([i \in 1..Len(c.c) |-> TopCode(c.c[i])])

RECURSIVE Codes(_)                   \* all dimension codes, lexicographically increasing
Codes(c) == IF c.k # "prod" THEN [i \in 1..(Dim(c) + 1) |-> <<i - 1>>]
            ELSE LET cart == CartesianSeq([i \in 1..Len(c.c) |-> Codes(c.c[i])])
                 IN [i \in 1..Len(cart) |-> Flatten(cart[i])]

(* vertex coordinates, as sequences of 0/1 *)
RECURSIVE Verts_(_)
Verts_(c) == CASE c.k = "simplex" -> [v \in 1..(c.d + 1) |-> [i \in 1..c.d |-> IF i = v - 1 THEN 1 ELSE 0]]
              [] c.k = "flat" -> Verts_(c.c[1])
              [] OTHER -> LET cart == CartesianSeq([i \in 1..Len(c.c) |-> Verts_(c.c[i])])
                          IN [i \in 1..Len(cart) |-> Flatten(cart[i])]

(* splitting a code of a product into the codes of its factors *)
RECURSIVE SplitCode(_, _)
SplitCode(cs, code) == IF cs = <<>> THEN <<>>
   ELSE LET w == Width(Head(cs)) IN
        << SubSeq(code, 1, w) >> \o SplitCode(Tail(cs), SubSeq(code, w + 1, Len(code)))

(* the entities of one dimension: sequence of vertex-number sequences *)
RECURSIVE Ents_(_, _)
Ents_(c, code) ==
  CASE c.k = "simplex" ->
         LET s == IncSeqs(0, c.d + 1, code[1] + 1) IN IF code[1] = 0 THEN s ELSE Rev(s)
    [] c.k = "flat" ->                \* the product entities of that total dimension, in code order
         LET p == c.c[1]  cs == SelectSeq(Codes(p), LAMBDA q : SumSeq(q) = code[1]) IN
         Flatten([i \in 1..Len(cs) |-> Ents_(p, cs[i])])
    [] OTHER ->
         LET parts == SplitCode(c.c, code)
             es    == [i \in 1..Len(c.c) |-> Ents_(c.c[i], parts[i])]
             nv    == [i \in 1..Len(c.c) |-> Len(Verts_(c.c[i]))]
             cart  == CartesianSeq(es)
             Ravel(t) == LET RECURSIVE R(_, _)
                             R(i, acc) == IF i > Len(t) THEN acc ELSE R(i + 1, acc * nv[i] + t[i])
                         IN R(1, 0)
             VNum(tuple) == LET vs == CartesianSeq(tuple) IN [j \in 1..Len(vs) |-> Ravel(vs[j])]
         IN [i \in 1..Len(cart) |-> VNum(cart[i])]

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* The cells in use are tabulated once: everything below reads these tables. *)
NamedCells == {CellOf(x) : x \in CellNames} \union {Simplex(d) : d \in 0..3}
PartsOf(c) == IF c.k = "simplex" THEN {} ELSE RangeOf(c.c)
RECURSIVE Boxlike(_)                 \* products of intervals can be flattened
Boxlike(c) == CASE c.k = "simplex" -> c.d = 1 [] c.k = "flat" -> TRUE [] OTHER -> \A i \in 1..Len(c.c) : Boxlike(c.c[i])
AllCells == LET A == NamedCells \union {Flat(c) : c \in {q \in NamedCells : q.k = "prod" /\ Boxlike(q)}}
                B == A \union UNION {PartsOf(c) : c \in A}
            IN B \union UNION {PartsOf(c) : c \in B}
CellTab == Deep([c \in AllCells |->
   LET cd == Codes(c)
       en == [q \in RangeOf(cd) |-> Ents_(c, q)]
       el == Flatten([i \in 1..Len(cd) |-> [e \in 1..Len(en[cd[i]]) |-> << cd[i], e - 1 >>]])
   IN [verts |-> Verts_(c), ents |-> en, el |-> el,
       sub |-> [s \in RangeOf(el) |-> LET vs == RangeOf(At(en[s[1]], s[2])) IN
                  SelectSeq(el, LAMBDA r : RangeOf(At(en[r[1]], r[2])) \subseteq vs)]]])
Verts(c) == IF c \in AllCells THEN CellTab[c].verts ELSE Verts_(c)
Ents(c, code) == IF c \in AllCells THEN CellTab[c].ents[code] ELSE Ents_(c, code)
NEnts(c, code) == Len(Ents(c, code))
EntList(c) == IF c \in AllCells THEN CellTab[c].el
              ELSE Flatten([i \in 1..Len(Codes(c)) |->
                 [e \in 1..NEnts(c, Codes(c)[i]) |-> << Codes(c)[i], e - 1 >>]])
EntVerts(c, code, e) == At(Ents(c, code), e)

(* entities contained in the closure of an entity *)
SubEnts(c, code, e) ==
  IF c \in AllCells THEN CellTab[c].sub[<<code, e>>]
  ELSE LET vs == RangeOf(EntVerts(c, code, e)) IN
       SelectSeq(EntList(c), LAMBDA s : RangeOf(EntVerts(c, s[1], s[2])) \subseteq vs)

(* the reference cell of an entity *)
RECURSIVE EntCell(_, _)
EntCell(c, code) ==
  CASE c.k = "simplex" -> Simplex(code[1])
    [] c.k = "flat" -> (CASE code[1] = 0 -> Point [] code[1] = 1 -> Interval
                          [] code[1] = 2 -> Quad [] OTHER -> Hex)
    [] OTHER -> LET parts == SplitCode(c.c, code) IN Prod([i \in 1..Len(c.c) |-> EntCell(c.c[i], parts[i])])

(* Where a flattened entity lives in the product: <<code, number>> *)
Unflatten(p, d, e) ==
  LET cs == SelectSeq(Codes(p), LAMBDA q : SumSeq(q) = d)
      RECURSIVE F(_, _)
      F(i, left) == IF left < NEnts(p, cs[i]) THEN << cs[i], left >> ELSE F(i + 1, left - NEnts(p, cs[i]))
  IN F(1, e)

(* entity number of a product, split into the numbers of the factors *)
RECURSIVE SplitNum(_, _)
SplitNum(ns, e) == IF Len(ns) = 1 THEN << e >>
   ELSE LET r == ProdSeq(Tail(ns)) IN << e \div r >> \o SplitNum(Tail(ns), e % r)

RECURSIVE SplitPt(_, _)
SplitPt(ws, x) == IF ws = <<>> THEN <<>>
   ELSE << SubSeq(x, 1, Head(ws)) >> \o SplitPt(Tail(ws), SubSeq(x, Head(ws) + 1, Len(x)))

(* Embedding of an entity: a point of the entity's reference cell, given by *)
(* integer numerators over the denominator m, goes to numerators over m.    *)
RECURSIVE Embed(_, _, _, _, _)
Embed(c, code, e, x, m) ==
  CASE c.k = "simplex" ->
         LET vs == EntVerts(c, code, e)
             V(i) == At(Verts(c), vs[i])
         IN [j \in 1..c.d |-> m * V(1)[j] + SumSeq([i \in 1..Len(x) |-> x[i] * (V(i + 1)[j] - V(1)[j])])]
    [] c.k = "flat" -> LET u == Unflatten(c.c[1], code[1], e) IN Embed(c.c[1], u[1], u[2], x, m)
    [] OTHER ->
         LET parts == SplitCode(c.c, code)
             ns == SplitNum([i \in 1..Len(c.c) |-> NEnts(c.c[i], parts[i])], e)
             xs == SplitPt([i \in 1..Len(c.c) |-> SumSeq(parts[i])], x)
         IN Flatten([i \in 1..Len(c.c) |-> Embed(c.c[i], parts[i], ns[i], xs[i], m)])

(* columns of the Jacobian of the embedding: the tangents of the entity *)
UnitPt(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
Tangents(c, code, e) ==
  LET n == SumSeq(code)  o == Embed(c, code, e, [j \in 1..n |-> 0], 1) IN
  [i \in 1..n |-> LET q == Embed(c, code, e, UnitPt(n, i), 1) IN [j \in 1..Len(o) |-> q[j] - o[j]]]

(* lattice of numerators over m in the closed cell *)
RECURSIVE SimplexLat(_, _)
SimplexLat(d, m) == IF d = 0 THEN << <<>> >>
   ELSE Flatten([i \in 1..(m + 1) |-> LET r == SimplexLat(d - 1, m - (i - 1)) IN
                                      [j \in 1..Len(r) |-> << i - 1 >> \o r[j]]])
RECURSIVE Lattice(_, _)
Lattice(c, m) ==
  CASE c.k = "simplex" -> SimplexLat(c.d, m)
    [] c.k = "flat" -> Lattice(c.c[1], m)
    [] OTHER -> LET cart == CartesianSeq([i \in 1..Len(c.c) |-> Lattice(c.c[i], m)])
                IN [i \in 1..Len(cart) |-> Flatten(cart[i])]

(* 1/volume *)
RECURSIVE InvVolume(_)
InvVolume(c) == CASE c.k = "simplex" -> Fact(c.d) [] c.k = "flat" -> InvVolume(c.c[1])
                  [] OTHER -> ProdSeq([i \in 1..Len(c.c) |-> InvVolume(c.c[i])])

FacetCodes(c) == SelectSeq(Codes(c), LAMBDA q : SumSeq(q) = Dim(c) - 1)

DotI(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
(* UFC facet normal from the tangents: 2D rotates the edge clockwise, 3D    *)
(* takes the cross product; the point facets of an interval have normal 1   *)
FacetNormal(c, code, e) ==
  LET t == Tangents(c, code, e) IN
  CASE Dim(c) = 1 -> <<1>>
    [] Dim(c) = 2 -> << t[1][2], -t[1][1] >>
    [] OTHER -> << t[1][2]*t[2][3] - t[1][3]*t[2][2],
                   t[1][3]*t[2][1] - t[1][1]*t[2][3],
                   t[1][1]*t[2][2] - t[1][2]*t[2][1] >>

(* outward normal of a facet, as an integer vector *)
OutNormal(c, code, e) ==
  LET n == IF Dim(c) = 1 THEN <<1>> ELSE FacetNormal(c, code, e)
      vs == EntVerts(c, code, e)
      on == At(Verts(c), vs[1])
      offs == SelectSeq([i \in 1..Len(Verts(c)) |-> i - 1], LAMBDA v : v \notin RangeOf(vs))
      off == At(Verts(c), offs[1])
      s == DotI(n, [j \in 1..Len(n) |-> on[j] - off[j]])
  IN IF s > 0 THEN n ELSE [j \in 1..Len(n) |-> -n[j]]
=============================================================================
