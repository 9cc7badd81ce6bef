------------------------------ MODULE JudgeComb ------------------------------
(***************************************************************************)
(* C08 - C11: what the combinators make of their parts.  An event carries   *)
(* the tables of the parts and of the whole at prescribed points; the       *)
(* specification computes the table of the whole from those of the parts.   *)
(***************************************************************************)
EXTENDS JudgeQuad

(* points in general position, numerators over 12 *)
RECURSIVE GenPts(_)
GenPts(c) ==
  CASE c.k = "simplex" -> (CASE c.d = 0 -> << <<>> >>
                             [] c.d = 1 -> << <<1>>, <<4>>, <<7>>, <<12>> >>
                             [] c.d = 2 -> << <<1,2>>, <<4,3>>, <<2,7>>, <<0,5>> >>
                             [] OTHER -> << <<1,2,3>>, <<4,1,2>>, <<2,5,1>>, <<0,3,4>> >>)
    [] c.k = "flat" -> GenPts(c.c[1])
    [] OTHER -> LET cart == CartesianSeq([i \in 1..Len(c.c) |-> GenPts(c.c[i])])
                IN [i \in 1..Len(cart) |-> Flatten(cart[i])]

(* the elements a family is made from *)
Comps(t) == CASE IsComposite(t) -> t.p
              [] t.f \in {"Bub", "FBub"} -> << El("CG", t.c, t.k) >>
              [] t.f = "DRT" -> << El("RT", t.c, t.k) >>

AlphasUpTo(d, n) == UNION { RangeOf(MI(d, k)) : k \in 0..n }
AlIndex(al) == [a \in RangeOf(al) |-> CHOOSE i \in 1..Len(al) : al[i] = a]
TabShapeAt(tab, ps, dm, nd, nc, order) ==
  /\ tab.pts = ps
  /\ NoDup(tab.al) /\ RangeOf(tab.al) = AlphasUpTo(dm, order)
  /\ Len(tab.rows) = Len(tab.al) /\ \A a \in 1..Len(tab.al) : RowsOK(tab.rows[a], nd, nc * Len(ps))
TabShape(tab, cell, nd, nc, order) == TabShapeAt(tab, GenPts(cell), Dim(cell), nd, nc, order)
RowNear(got, want) == AllNear(got, want, Mul(Tol(20), OnePlus(MaxAbs(want))))

-----------------------------------------------------------------------------
(* tensor products *)
TpRow(a, b, nca, ncb, na, nb) ==      \* nca, ncb: components; na, nb: points
  Flatten([c \in 1..(nca * ncb) |-> Flatten([p \in 1..na |->
      LET x == IF nca > 1 THEN a[(c - 1) * na + p] ELSE a[p] IN
      [q \in 1..nb |-> Mul(x, IF ncb > 1 THEN b[(c - 1) * nb + q] ELSE b[q])]])])
TpTables(ev) ==
  LET t == ev.t  A == ev.parts[1]  B == ev.parts[2]  ta == t.p[1]  tb == t.p[2]
      da == Dm(ta)  nb == SpaceDim(tb)
      fa == Deep(AlIndex(A.al))  fb == Deep(AlIndex(B.al)) IN
  \A n \in 1..Len(ev.al) :
    LET al == ev.al[n]
        ra == A.rows[fa[SubSeq(al, 1, da)]]
        rb == B.rows[fb[SubSeq(al, da + 1, Len(al))]] IN
    \A i \in 1..SpaceDim(ta) : \A j \in 1..nb :
      RowNear(ev.rows[n][(i - 1) * nb + j],
              TpRow(ra[i], rb[j], NComp(ta), NComp(tb), Len(A.pts), Len(B.pts)))
TpEnts(t, pm) ==
  LET cs == << CellT(t.p[1]), CellT(t.p[2]) >>  nb == SpaceDim(t.p[2]) IN
  [s \in RangeOf(EntList(CellT(t))) |->
    LET parts == SplitCode(cs, s[1])
        ns == SplitNum([i \in 1..2 |-> NEnts(cs[i], parts[i])], s[2])
        x == pm[1][<< parts[1], ns[1] >>]  y == pm[2][<< parts[2], ns[2] >>] IN
    Flatten([i \in 1..Len(x) |-> [j \in 1..Len(y) |-> x[i] * nb + y[j]]])]

(* H(div) and H(curl) of a product: where the (scalar or plane) value goes  *)
ZeroRow(np) == [p \in 1..np |-> Zero]
NegRow(r) == [i \in 1..Len(r) |-> Neg(r[i])]
WrapRow(kind, u, row, np) ==          \* u: the product wrapped
  LET d == Dm(u)
      comp(c) == SubSeq(row, (c - 1) * np + 1, c * np)
      place(f) == Flatten([c \in 1..d |-> IF c \in DOMAIN f THEN f[c] ELSE ZeroRow(np)])
      fa == FormDeg(u.p[1])  fb == FormDeg(u.p[2])
      off == IF MapName(u.p[1]) # "affine" THEN 0 ELSE Dm(u.p[1])
      \* a plane field turned by a quarter: clockwise makes H(curl) fields H(div) ones
      clockwise == << comp(2), NegRow(comp(1)) >>
      anti == << NegRow(comp(2)), comp(1) >>
      at(f) == place([c \in {off + 1, off + 2} |-> f[c - off]])
  IN CASE MapName(u) = "affine" /\ kind = "hdiv" ->
            IF fa = 0 THEN place([c \in {1} |-> NegRow(row)]) ELSE place([c \in {d} |-> row])
       [] MapName(u) = "affine" -> IF fa = 1 THEN place([c \in {1} |-> row]) ELSE place([c \in {d} |-> row])
       [] (MapName(u) = "contravariant piola" /\ kind = "hdiv") \/ (MapName(u) = "covariant piola" /\ kind = "hcurl")
            -> at(<< comp(1), comp(2) >>)
       [] kind = "hdiv" -> at(clockwise)
       [] OTHER -> at(anti)

OffsetSeq(s, o) == [i \in 1..Len(s) |-> s[i] + o]
RECURSIVE SumDims(_, _)
SumDims(ps, n) == IF n = 0 THEN 0 ELSE SpaceDim(ps[n]) + SumDims(ps, n - 1)
RECURSIVE SumComps(_, _)
SumComps(ps, n) == IF n = 0 THEN 0 ELSE NComp(ps[n]) + SumComps(ps, n - 1)
ConcatEnts(t, pm) ==
  [s \in RangeOf(EntList(CellT(t))) |-> Flatten([i \in 1..Len(t.p) |-> OffsetSeq(pm[i][s], SumDims(t.p, i - 1))])]

(* dofs kept by a restriction, in the order of the entities *)
KeptSeq(t, pm, keep(_, _)) ==    \* keep(code, dof)
  LET el == EntList(CellT(t)) IN
  Flatten([i \in 1..Len(el) |-> SelectSeq(pm[el[i]], LAMBDA dof : keep(el[i][1], dof))])
KeptEnts(t, pm, keep(_, _)) ==
  LET el == EntList(CellT(t))
      \* EntList runs over the dimensions, FIAT over the keys of entity_dofs: the same order
      cnt(i) == Len(SelectSeq(pm[el[i]], LAMBDA dof : keep(el[i][1], dof)))
      RECURSIVE Go(_, _)
      Go(i, off) == IF i > Len(el) THEN <<>> ELSE << [j \in 1..cnt(i) |-> off + j - 1] >> \o Go(i + 1, off + cnt(i))
      g == Deep(Go(1, 0))
  IN [s \in RangeOf(el) |-> LET i == CHOOSE k \in 1..Len(el) : el[k] = s IN g[i]]
Keeps(t, code) == CASE t.f = "Bub" -> SumSeq(code) = Dm(t) [] t.f = "FBub" -> SumSeq(code) = Dm(t) - 1
                    [] OTHER -> InDomain(t.v, Dm(t), SumSeq(code))

WantEnts(t, pm, n) ==
  CASE t.f = "tp" -> TpEnts(t, pm)
    [] t.f = "flat" -> [s \in RangeOf(EntList(CellT(t))) |-> LET u == Unflatten(CellT(t.p[1]), s[1][1], s[2]) IN pm[1][<< u[1], u[2] >>]]
    [] t.f \in {"hdiv", "hcurl"} -> pm[1]
    [] t.f \in {"enr", "nod", "mix"} -> ConcatEnts(t, pm)
    [] t.f \in {"brk", "DRT"} -> [s \in RangeOf(EntList(CellT(t))) |-> IF SumSeq(s[1]) = Dm(t) THEN [i \in 1..n |-> i - 1] ELSE <<>>]
    [] t.f \in {"res", "Bub", "FBub"} -> KeptEnts(t, pm[1], LAMBDA code, dof : Keeps(t, code))

(* the tables of the whole from those of the parts *)
WantTables(ev, pm) ==
  LET t == ev.t  np == Len(ev.pts)
      F == Deep([i \in 1..Len(ev.parts) |-> AlIndex(ev.parts[i].al)])
      \* tables of part i for the same derivative
      R(i, n) == ev.parts[i].rows[F[i][ev.al[n]]] IN
  CASE t.f = "tp" -> TpTables(ev)
    [] t.f \in {"flat", "brk", "DRT"} -> \A n \in 1..Len(ev.al) : \A f \in 1..Len(ev.rows[n]) : RowNear(ev.rows[n][f], R(1, n)[f])
    [] t.f \in {"hdiv", "hcurl"} -> \A n \in 1..Len(ev.al) : \A f \in 1..Len(ev.rows[n]) :
                                       RowNear(ev.rows[n][f], WrapRow(t.f, t.p[1], R(1, n)[f], np))
    [] t.f = "enr" -> \A n \in 1..Len(ev.al) : \A i \in 1..Len(t.p) : \A f \in 1..SpaceDim(t.p[i]) :
                        RowNear(ev.rows[n][SumDims(t.p, i - 1) + f], R(i, n)[f])
    [] t.f = "mix" -> \A n \in 1..Len(ev.al) : \A i \in 1..Len(t.p) : \A f \in 1..SpaceDim(t.p[i]) :
                        LET before == SumComps(t.p, i - 1)  after == NComp(t) - before - NComp(t.p[i]) IN
                        RowNear(ev.rows[n][SumDims(t.p, i - 1) + f], ZeroRow(before * np) \o R(i, n)[f] \o ZeroRow(after * np))
    [] t.f = "nod" -> \A n \in 1..Len(ev.al) :
                        LET all == Flatten([i \in 1..Len(t.p) |-> R(i, n)]) IN
                        \A f \in 1..Len(ev.rows[n]) :
                          LET want == LinComb(ev.w[f], all) IN
                          AllNear(ev.rows[n][f], want, Mul(Tol(18), Add(OnePlus(MaxAbs(want)), MaxAbs(ev.w[f]))))
    [] t.f \in {"res", "Bub", "FBub"} ->
         LET ks == Deep(KeptSeq(t, pm[1], LAMBDA code, dof : Keeps(t, code))) IN
         \A n \in 1..Len(ev.al) : \A f \in 1..Len(ev.rows[n]) : RowNear(ev.rows[n][f], R(1, n)[ks[f] + 1])

(* the same on the entities of the cell: a product is evaluated on the      *)
(* entity s by evaluating its factors on the factors of s                   *)
SideOf(t, s, i) ==
  CASE t.f = "tp" -> LET cs == << CellT(t.p[1]), CellT(t.p[2]) >>
                         q == SplitCode(cs, s[1])
                     IN << q[i], SplitNum([j \in 1..2 |-> NEnts(cs[j], q[j])], s[2])[i] >>
    [] t.f = "flat" -> LET u == Unflatten(CellT(t.p[1]), s[1][1], s[2]) IN << u[1], u[2] >>
    [] OTHER -> s
SidesVerdict(ev, ps, pm) ==
  LET t == ev.t  c == CellT(t)
      low == SelectSeq(EntList(c), LAMBDA s : SumSeq(s[1]) < Dim(c))
      On(tab, u, s, o) == TabShapeAt(tab, GenPts(EntCell(CellT(u), s[1])), Dm(u), SpaceDim(u), NComp(u), o)
      shape == C("tables on every entity", [i \in 1..Len(ev.sides) |-> ev.sides[i].s] = low)
            \o C("tables of the whole on entities", \A i \in 1..Len(ev.sides) : On(ev.sides[i], t, ev.sides[i].s, ev.sides[i].order))
            \o C("tables of the parts on entities", \A i \in 1..Len(ev.sides) :
                    /\ Len(ev.sides[i].parts) = Len(ps)
                    /\ \A j \in 1..Len(ps) : On(ev.sides[i].parts[j], ps[j], SideOf(t, ev.sides[i].s, j), ev.sides[i].order))
  IN IF shape # <<>> THEN shape ELSE
     C("on entities too", \A i \in 1..Len(ev.sides) :
         WantTables([ev EXCEPT !.pts = ev.sides[i].pts, !.al = ev.sides[i].al, !.rows = ev.sides[i].rows,
                               !.parts = ev.sides[i].parts], pm))

CombVerdict(ev) ==
  LET t == ev.t  ps == Comps(t)  nd == SpaceDim(t)
      pd(i) == [s \in RangeOf(EntList(CellT(ps[i]))) |-> 0]
      shape == C("tables of the whole", TabShape([pts |-> ev.pts, al |-> ev.al, rows |-> ev.rows], CellT(t), nd, NComp(t), ev.order))
            \o C("as many parts as the element has", Len(ev.parts) = Len(ps) /\ Len(ev.pents) = Len(ps))
            \o (IF Len(ev.parts) # Len(ps) THEN <<>> ELSE
                C("tables of the parts", \A i \in 1..Len(ps) : TabShape(ev.parts[i], CellT(ps[i]), SpaceDim(ps[i]), NComp(ps[i]), ev.order)))
            \o DofShape(ev, t)
            \o (IF Len(ev.pents) # Len(ps) THEN <<>> ELSE
                Flatten([i \in 1..Len(ps) |-> DofShape([ent |-> ev.pents[i]], ps[i])]))
            \o (IF t.f = "nod" THEN C("a witness per function", RowsOK(ev.w, nd, nd)) ELSE <<>>)
  IN IF shape # <<>> THEN shape ELSE
     LET D == Deep(DofMap(ev.ent, EntList(CellT(t))))
         pm == Deep([i \in 1..Len(ps) |-> DofMap(ev.pents[i], EntList(CellT(ps[i])))])
     IN C("dofs of the whole follow from those of the parts", D = WantEnts(t, pm, nd))
        \o C("tables of the whole follow from those of the parts", WantTables(ev, pm))
        \o SidesVerdict(ev, ps, pm)

(* restriction to a list of dofs: the functions of those dofs, numbered     *)
(* along the entities                                                       *)
PickVerdict(ev) ==
  LET t == ev.t  ix == RangeOf(ev.ix)  n == Cardinality(ix)  c == CellT(t)
      tab == [pts |-> ev.pts, al |-> ev.al, rows |-> ev.rows]
      ks == EntKeys(ev.ent)
      shape == C("tables of the whole", TabShape(ev.parts[1], c, SpaceDim(t), NComp(t), ev.order))
            \o C("tables of the restriction", TabShape(tab, c, n, NComp(t), ev.order))
            \o DofShape([ent |-> ev.pents[1]], t)
            \o C("entities of the cell", NoDup(ks) /\ RangeOf(ks) = RangeOf(EntList(c)))
  IN IF shape # <<>> THEN shape ELSE
     LET pm == Deep(DofMap(ev.pents[1], EntList(c)))
         D == Deep(DofMap(ev.ent, EntList(c)))
         kept == Deep(KeptSeq(t, pm, LAMBDA code, dof : dof \in ix))
         F == Deep(AlIndex(ev.parts[1].al))
     IN C("dofs of the restriction", D = KeptEnts(t, pm, LAMBDA code, dof : dof \in ix))
        \o C("functions of the restriction", \A a \in 1..Len(ev.al) : \A f \in 1..n :
               RowNear(ev.rows[a][f], ev.parts[1].rows[F[ev.al[a]]][kept[f] + 1]))
=============================================================================
