------------------------------ MODULE JudgeTab ------------------------------
(***************************************************************************)
(* Verdicts on tables of basis functions: duality, derivatives, function    *)
(* space, conformity, gluing.  A table row is flat over (component, point). *)
(***************************************************************************)
EXTENDS Judge

UnitA(d, i) == [j \in 1..d |-> IF j = i THEN 1 ELSE 0]
AddA(a, b)  == [j \in 1..Len(a) |-> a[j] + b[j]]
RowsOK(rows, nd, n) == Len(rows) = nd /\ \A i \in 1..nd : Len(rows[i]) = n
OnePlus(x)  == Add(One, x)
MaxRows(rows) == LET m == [i \in 1..Len(rows) |-> MaxAbs(rows[i])] IN IF rows = <<>> THEN Zero ELSE MaxAbs(m)

-----------------------------------------------------------------------------
(* C01: functional j applied to basis function i is the Kronecker delta.    *)
(* ev.rows[i]: everything the functionals read of function i; ev.F[j]: the  *)
(* weights w on the positions i which functional j reads.                   *)
(* functionals of a mixed element are those of its parts, on their blocks    *)
RECURSIVE DualShapes(_)
DualShapes(t) == IF t.f = "mix" THEN Flatten([i \in 1..Len(t.p) |-> DualShapes(t.p[i])]) ELSE Rep(VShape(t), SpaceDim(t))
DualVerdict(ev) ==
  LET nd == SpaceDim(ev.t)
      shape == C("one functional per basis function", Len(ev.F) = nd)
            \o C("one table row per basis function", Len(ev.rows) = nd)
  IN IF shape # <<>> THEN shape ELSE
     C("finite tables", \A i \in 1..nd : AllNum(ev.rows[i]))
     \o C("functionals read components of the value shape", LET sh == DualShapes(ev.t) IN \A j \in 1..nd : ev.F[j].shape = sh[j])
     \o C("functionals and basis functions are dual",
          \A j \in 1..nd : \A i \in 1..nd :
             Near(SpDot(ev.F[j].i, ev.F[j].w, ev.rows[i]), IF i = j THEN One ELSE Zero, Tol(19)))

-----------------------------------------------------------------------------
(* C05: tabulated derivatives are the derivatives of the tabulated values.  *)
(* ev.lines[i]: the tables on a line in direction i through ev.base / ev.m  *)
(* with nodes 0..L+1 in units of 1/m; ev.al the multi-indices.              *)
DerivVerdict(ev) ==
  LET t == ev.t  d == Dm(t)  L == LineDeg(t)  nd == SpaceDim(t)  nc == NComp(t)
      np == L + 2
      al == ev.al
      na == Len(al)
      wanted == UNION { RangeOf(MI(d, n)) : n \in 0..ev.order }
      shape == C("the derivatives asked for are there", RangeOf(al) = wanted /\ NoDup(al))
            \o C("table shapes", \A n \in 1..Len(ev.lines) : \A a \in 1..na : RowsOK(ev.lines[n].rows[a], nd, nc * np))
            \o C("recorded on the lines of the specification", \A n \in 1..Len(ev.lines) :
                   ev.lines[n].pts = [p \in 1..np |-> [j \in 1..d |-> IF j = ev.lines[n].dir THEN p - 1 ELSE ev.lines[n].base[j]]])
  IN IF shape # <<>> THEN shape ELSE
     LET D == Deep([p \in 1..(L + 1) |-> DiffRow(L, p - 1, ev.m)])
         top == Deep(TopDiff(L))
         idx == Deep([c \in 1..nc |-> [q \in 1..(L + 1) |-> (c - 1) * np + q]])
         idt == Deep([c \in 1..nc |-> [q \in 1..(L + 2) |-> (c - 1) * np + q]])
         Find(a) == CHOOSE n \in 1..na : al[n] = a
         LineOK(ln) ==
           \A a \in 1..na : SumSeq(al[a]) < ev.order =>
             LET b == Find(AddA(al[a], UnitA(d, ln.dir))) IN
             \A f \in 1..nd :
               LET tol == Mul(Tol(19), OnePlus(MaxAbs(ln.rows[b][f]))) IN
               \A c \in 1..nc : \A p \in 1..(L + 1) :
                 Near(SpDot(idx[c], D[p], ln.rows[a][f]), ln.rows[b][f][(c - 1) * np + p], tol)
     IN C("finite tables", \A n \in 1..Len(ev.lines) : \A a \in 1..na : \A f \in 1..nd : AllNum(ev.lines[n].rows[a][f]))
        \o C("derivatives are derivatives of the values", \A n \in 1..Len(ev.lines) : LineOK(ev.lines[n]))
        \o C("values are polynomials of the promised degree", \A n \in 1..Len(ev.lines) :
              LET z == Find([j \in 1..d |-> 0]) IN
              \A f \in 1..nd : \A c \in 1..nc :
                Near(SpDot(idt[c], top, ev.lines[n].rows[z][f]), Zero, Mul(Tol(17), OnePlus(MaxAbs(ev.lines[n].rows[z][f])))))

-----------------------------------------------------------------------------
(* C06: the basis spans the documented space.  ev.w[q]: coefficients of the *)
(* q-th spanning field in the basis, a witness the driver found.            *)
SpanVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  nd == SpaceDim(t)  nc == NComp(t)
      m == LineDeg(t)
      pts == Lattice(c, IF m = 0 THEN 1 ELSE m)
      np == Len(pts)
      sp == Span(t)
      shape == C("recorded on the lattice of the specification", ev.pts = pts)
            \o C("table shape", RowsOK(ev.rows, nd, nc * np))
            \o C("a witness per spanning field", RowsOK(ev.w, Len(sp), nd))
  IN IF shape # <<>> THEN shape ELSE
     LET pw == Deep(PowTab(LatCols(pts, IF m = 0 THEN 1 ELSE m), m, np)) IN
     C("finite tables", \A f \in 1..nd : AllNum(ev.rows[f]))
     \o C("the documented function space lies in the span of the basis",
          \A q \in 1..Len(sp) :
             AllNear(LinComb(ev.w[q], ev.rows), FieldVal(pw, sp[q], np), Mul(Tol(19), OnePlus(MaxAbs(ev.w[q])))))
     \o (IF VShape(t) = <<Dm(t), Dm(t)>>
         THEN C("tensor fields are symmetric", \A f \in 1..nd : \A i \in 1..Dm(t) : \A j \in 1..Dm(t) : \A p \in 1..np :
                 Near(ev.rows[f][((i-1)*Dm(t) + j - 1)*np + p], ev.rows[f][((j-1)*Dm(t) + i - 1)*np + p], Tol(20)))
         ELSE <<>>)

-----------------------------------------------------------------------------
(* Traces.  ev.ents: entities with the tables on their embedded lattice.    *)
(* the trace of one row on an entity: rows over (trace component, point)    *)
Comb(row, ws, np) ==      \* ws: << integer weight per component >>
  [p \in 1..np |-> LET nz == SelectSeq([c \in 1..Len(ws) |-> c], LAMBDA c : ws[c] # 0) IN
     IF nz = <<>> THEN Zero ELSE VSum([k \in 1..Len(nz) |-> MulI(row[(nz[k] - 1) * np + p], ws[nz[k]])])]
Outer(u, v) == Flatten([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> u[i] * v[j]]])
TraceWeights(kind, c, code, e) ==       \* integer weights per trace component
  LET n == FacetNormal(c, code, e)  T == Tangents(c, code, e)  d == Dim(c) IN
  CASE kind = "normal" -> << n >>
    [] kind = "tangential" -> T
    [] kind = "tt" -> Flatten([i \in 1..Len(T) |-> [j \in 1..i |-> Outer(T[i], T[j])]])
    [] kind = "nn" -> << Outer(n, n) >>
    [] kind = "sigma n" -> [i \in 1..d |-> Outer(UnitA(d, i), n)]
TraceRow(kind, row, c, code, e, np) ==
  IF kind \in {"value", "gradient"} THEN row
  ELSE LET W == TraceWeights(kind, c, code, e) IN Flatten([k \in 1..Len(W) |-> Comb(row, W[k], np)])

ClosureSeq(t, code, e, D) ==   \* dofs on the closure of an entity, by sub-entity
  LET se == SubEnts(CellT(t), code, e) IN Flatten([i \in 1..Len(se) |-> D[se[i]]])

EmbLat(c, code, e, m) ==
  LET lat == Lattice(EntCell(c, code), m) IN [p \in 1..Len(lat) |-> Embed(c, code, e, lat[p], m)]

(* dofs each entity owns, as recorded from the code *)
DofMap(ent, el) == [s \in RangeOf(el) |-> LET i == CHOOSE j \in 1..Len(ent) : << ent[j].c, ent[j].e >> = s IN ent[i].d]
DofShape(ev, t) ==
  LET el == EntList(CellT(t))  ks == EntKeys(ev.ent)  nd == SpaceDim(t)
      all == Flatten([i \in 1..Len(ev.ent) |-> ev.ent[i].d]) IN
  C("dofs partition", NoDup(ks) /\ RangeOf(ks) = RangeOf(el) /\ NoDup(all) /\ RangeOf(all) = 0..(nd - 1))

ConformVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  kind == TraceKind(t)  nd == SpaceDim(t)  nc == NComp(t)
      m == ev.m
      el == EntList(c)
      shape == DofShape(ev, t)
            \o C("recorded with the degree of the specification", m = TraceDeg(t))
            \o C("entities recorded", \A i \in 1..Len(ev.tabs) : << ev.tabs[i].c, ev.tabs[i].e >> \in RangeOf(el))
            \o C("all claimed entities recorded", \A i \in 1..Len(el) :
                   Claims(t, el[i][1], el[i][2])
                   => \E j \in 1..Len(ev.tabs) : << ev.tabs[j].c, ev.tabs[j].e >> = el[i])
  IN IF shape # <<>> THEN shape ELSE
     LET D == Deep(DofMap(ev.ent, el))
         Tab(x) ==
           LET pts == EmbLat(c, x.c, x.e, m)  np == Len(pts)
               sh == C("recorded on the lattice of the specification", x.pts = pts)
                  \o C("table shape", RowsOK(x.rows, nd, TraceRep(kind) * nc * np))
           IN IF sh # <<>> THEN sh ELSE
              LET clo == RangeOf(ClosureSeq(t, x.c, x.e, D))
                  off == {k \in 1..nd : (k - 1) \notin clo} IN
              C("basis functions of other entities have no trace here",
                \A k \in off : AllZero(TraceRow(kind, x.rows[k], c, x.c, x.e, np), Mul(Tol(20), OnePlus(MaxAbs(x.rows[k])))))
         vs == [i \in 1..Len(ev.tabs) |-> IF Claims(t, ev.tabs[i].c, ev.tabs[i].e) THEN Tab(ev.tabs[i]) ELSE <<>>]
         bad == UNION { RangeOf(vs[i]) : i \in 1..Len(vs) }
     IN SetToSeq_(bad)

(* C04: seen from each entity of one kind, in the entity's own coordinates, *)
(* the traces of the dofs on its closure are the same functions.            *)
GlueVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  kind == TraceKind(t)  nd == SpaceDim(t)  nc == NComp(t)
      m == ev.m
      el == EntList(c)
      shape == DofShape(ev, t)
            \o C("recorded with the degree of the specification", m = TraceDeg(t))
            \o C("table shapes", \A i \in 1..Len(ev.tabs) :
                 LET x == ev.tabs[i]  pts == EmbLat(c, x.c, x.e, m) IN
                 x.pts = pts /\ RowsOK(x.rows, nd, TraceRep(kind) * nc * Len(pts)))
  IN IF shape # <<>> THEN shape ELSE
     LET D == Deep(DofMap(ev.ent, el))
         Seen(x) == LET ks == ClosureSeq(t, x.c, x.e, D)  np == Len(x.pts) IN
                    [i \in 1..Len(ks) |-> TraceRow(kind, x.rows[ks[i] + 1], c, x.c, x.e, np)]
         S == Deep([i \in 1..Len(ev.tabs) |-> Seen(ev.tabs[i])])
         same(i, j) == /\ Len(S[i]) = Len(S[j])
                       /\ \A k \in 1..Len(S[i]) : AllNear(S[i][k], S[j][k], Mul(Tol(20), OnePlus(MaxAbs(S[i][k]))))
         G == Deep([i \in 1..Len(ev.tabs) |-> << ev.tabs[i].c, AlikeCode(t, ev.tabs[i].c, ev.tabs[i].e) >>])
         g(i) == G[i]
         first(i) == CHOOSE j \in 1..Len(ev.tabs) : g(j) = g(i) /\ \A h \in 1..(j-1) : g(h) # g(i)
     IN C("neighbouring cells agree on the shared entity", \A i \in 1..Len(ev.tabs) : same(first(i), i))
=============================================================================
