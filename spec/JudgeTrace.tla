------------------------------ MODULE JudgeTrace ------------------------------
(***************************************************************************)
(* C12: the trace element is, on every facet, the discontinuous Lagrange    *)
(* element of the facet, and nothing else anywhere.                         *)
(***************************************************************************)
EXTENDS JudgeComb

(* nodes of the discontinuous Lagrange element of a facet, numerators / 12  *)
RECURSIVE DGNodes(_, _)
DGNodes(c, degs) ==
  CASE c.k = "simplex" /\ c.d = 0 -> << <<>> >>
    [] c.k = "simplex" -> IF degs[1] = 0 THEN << [i \in 1..c.d |-> 12 \div (c.d + 1)] >>
                          ELSE LET l == SimplexLat(c.d, degs[1]) IN [i \in 1..Len(l) |-> [j \in 1..c.d |-> (l[i][j] * 12) \div degs[1]]]
    [] OTHER -> LET parts == IF c.k = "flat" THEN c.c[1].c ELSE c.c
                    cart == CartesianSeq([i \in 1..Len(parts) |-> DGNodes(parts[i], IF Len(degs) = 1 THEN degs ELSE << degs[i] >>)])
                IN [i \in 1..Len(cart) |-> Flatten(cart[i])]
(* exponents of the polynomials on the facet *)
RECURSIVE DGMonos(_, _)
DGMonos(c, degs) ==
  CASE c.k = "simplex" -> IF c.d = 0 THEN << <<>> >> ELSE MIUpTo(c.d, degs[1])
    [] OTHER -> LET parts == IF c.k = "flat" THEN c.c[1].c ELSE c.c
                    cart == CartesianSeq([i \in 1..Len(parts) |-> DGMonos(parts[i], IF Len(degs) = 1 THEN degs ELSE << degs[i] >>)])
                IN [i \in 1..Len(cart) |-> Flatten(cart[i])]
TraceDegs(t) == IF CellT(t).k = "prod" THEN TraceTupOf(t) ELSE << t.k >>

BatchesOf(S, d) == { << a >> : a \in S } \union { << a, b >> : a \in S, b \in S }
                   \union (IF d = 2 THEN { << a, b, z >> : a \in S, b \in S, z \in S } ELSE { << a, b, a >> : a \in S, b \in S })
TraceVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  nd == SpaceDim(t)  d == Dim(c)
      el == EntList(c)
      fac == SelectSeq(el, LAMBDA s : SumSeq(s[1]) = d - 1)
      degs == TraceDegs(t)
      shape == DofShape(ev, t)
            \o C("all facets recorded", [i \in 1..Len(ev.fac) |-> << ev.fac[i].c, ev.fac[i].e >>] = fac)
            \o C("a functional per dof", Len(ev.nodes) = nd)
  IN IF shape # <<>> THEN shape ELSE
     LET D == Deep(DofMap(ev.ent, el))
         One_(x) ==
           LET s == << x.c, x.e >>  fc == EntCell(c, x.c)
               dofs == D[s]  n == Len(dofs)
               ys == x.ys
               want == DGNodes(fc, degs)
               sh == C("nodes of the facet", RangeOf(ys) = RangeOf(want) /\ Len(ys) = n)
                  \o C("tables", RowsOK(x.at, nd, n) /\ RowsOK(x.gen, nd, Len(GenPts(fc))))
           IN IF sh # <<>> THEN sh ELSE
              LET g == GenPts(fc)  np == Len(g)
                  pwg == Deep(PowTab(LatCols(g, 12), 12, np))
                  pwy == Deep(PowTab(LatCols(ys, 12), 12, n))
                  ms == DGMonos(fc, degs) IN
              C("functionals evaluate at the nodes of the facet", \A i \in 1..n :
                   AllNear(ev.nodes[dofs[i] + 1], [j \in 1..d |-> Rat(Embed(c, x.c, x.e, ys[i], 12)[j], 12)], Tol(26)))
              \o C("nodal on the facet, zero elsewhere", \A k \in 1..nd : \A i \in 1..n :
                   Near(x.at[k][i], IF dofs[i] = k - 1 THEN One ELSE Zero, Tol(24)))
              \o C("zero off the facet", \A k \in 1..nd : (k - 1) \in RangeOf(dofs) \/ AllZero(x.gen[k], Tol(30)))
              \o C("polynomials of the degree are reproduced", \A q \in 1..Len(ms) :
                   LET co == MonoVal(pwy, ms[q], 1, n) IN
                   AllNear(LinComb(co, [i \in 1..n |-> x.gen[dofs[i] + 1]]), MonoVal(pwg, ms[q], 1, np), Tol(22)))
              \* the same table when derivatives are asked for, whose slots then hold errors
              \o C("derivatives are refused", x.slots = << "values" >> \o Rep("TraceError", d))
              \o C("values do not depend on the order asked for", \A k \in 1..nd : AllNear(x.gen1[k], x.gen[k], Tol(34)))
              \* simplices find the facet from the points alone
              \o (IF c.k # "simplex" THEN <<>> ELSE
                  C("the facet is found from the points", RowsOK(x.found, nd, np) /\ RowsOK(x.found1, nd, np) /\ RowsOK(x.same, nd, np) /\ x.fslots = << "values" >> \o Rep("TraceError", d)
                      /\ \A k \in 1..nd : AllNear(x.found[k], x.same[k], Tol(24)) /\ AllNear(x.found1[k], x.same[k], Tol(24))))
         vs == [i \in 1..Len(ev.fac) |-> One_(ev.fac[i])]
     IN SetToSeq_(UNION { RangeOf(vs[i]) : i \in 1..Len(vs) })
        \o C("tabulation on other entities is refused", \A i \in 1..Len(ev.others) : RangeOf(ev.others[i]) = {"TraceError"})
        \o (IF c.k # "simplex" THEN <<>> ELSE
            LET spots == RangeOf(el)
                seen == [i \in 1..Len(ev.off) |-> [n \in 1..Len(ev.off[i].at) |-> << ev.off[i].at[n].c, ev.off[i].at[n].e >>]]
                \* the facets a spot lies on are those that contain its vertices
                on(s) == { f \in 1..Len(fac) : RangeOf(EntVerts(c, s[1], s[2])) \subseteq RangeOf(EntVerts(c, fac[f][1], fac[f][2])) }
                On == [s \in spots |-> on(s)]
                common(b) == { f \in 1..Len(fac) : \A n \in 1..Len(b) : f \in On[b[n]] } IN
            C("batches of points", RangeOf(seen) = BatchesOf(spots, d))
            \o C("points which share no facet or several have no values", \A i \in 1..Len(seen) :
                   (\A n \in 1..Len(seen[i]) : seen[i][n] \in spots) => (Cardinality(common(seen[i])) # 1 => RangeOf(ev.off[i].kinds) = {"nan"}))
            \o C("points which share one facet have values there", \A i \in 1..Len(seen) :
                   (\A n \in 1..Len(seen[i]) : seen[i][n] \in spots) =>
                     \A f \in common(seen[i]) : Cardinality(common(seen[i])) = 1 => ev.off[i].kinds[1] = "values" /\ RangeOf(ev.off[i].rows) \subseteq RangeOf(D[fac[f]]) /\ ev.off[i].rows # <<>>))
=============================================================================
