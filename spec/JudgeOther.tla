------------------------------- MODULE JudgeOther -------------------------------
(***************************************************************************)
(* C24: elements on simplices of another convention.  The UFC simplex is    *)
(* mapped onto the other one vertex by vertex, which takes x to x or to     *)
(* 2x - 1; what was observed there is brought back and judged like what is  *)
(* observed on the UFC simplex.  As the map is a multiple of the identity,   *)
(* the pull-backs of fields only scale them.                                *)
(***************************************************************************)
EXTENDS JudgeContract

Stretch(n) == IF n \in {"IntrepidTriangle", "IntrepidTetrahedron"} THEN 1 ELSE 2
(* vertex i of one is vertex i of the other under the map *)
ASSUME \A n \in {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron", "IntrepidTriangle", "IntrepidTetrahedron"} :
         LET V == OtherGeo(n).v  U == Verts(Simplex(Len(V) - 1))  s == Stretch(n) IN
         \A i \in 1..Len(V) : V[i] = [j \in 1..Len(V[i]) |-> s * U[i][j] + (1 - s)]
Back(n, x) == LET s == Stretch(n) IN [j \in 1..Len(x) |-> IF s = 1 THEN x[j] ELSE DivI(Add(x[j], One), 2)]

(* the number an entity has on the UFC simplex *)
UfcNumber(n, q, e) ==
  LET vs == RangeOf(At(GEnts(Other_(n), q), e))
      E == Ents(Simplex(GDim(Other_(n))), q) IN
  (CHOOSE i \in 1..Len(E) : RangeOf(E[i]) = vs) - 1
OtherKeysOK(n, m) == LET ks == EntKeys(m)  el == GList(Other_(n)) IN NoDup(ks) /\ RangeOf(ks) = RangeOf(el)
Renumber(n, m) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.e = UfcNumber(n, m[i].c, m[i].e)]]
PowI(s, n) == IF n = 0 THEN 1 ELSE s^n
Scaled(T, s) == IF s = 1 THEN T ELSE [f \in 1..Len(T) |-> [p \in 1..Len(T[f]) |-> MulI(T[f][p], s)]]

Brought(n, ev) ==
  CASE ev.k = "layout" -> [ev EXCEPT !.ent = Renumber(n, ev.ent), !.clo = Renumber(n, ev.clo),
                                     !.sup = [i \in 1..Len(ev.sup) |-> [ev.sup[i] EXCEPT !.x = [p \in 1..Len(ev.sup[i].x) |-> Back(n, ev.sup[i].x[p])]]]]
    [] ev.k = "conform" -> [ev EXCEPT !.ent = Renumber(n, ev.ent)]
    [] ev.k = "deriv" -> [ev EXCEPT !.lines = [i \in 1..Len(ev.lines) |-> [ev.lines[i] EXCEPT !.rows =
                              [a \in 1..Len(ev.lines[i].rows) |->
                                 Scaled(ev.lines[i].rows[a], PowI(Stretch(n), SumSeq(ev.al[a])))]]]]
    [] ev.k = "bern" -> [ev EXCEPT !.ent = Renumber(n, ev.ent), !.rows = [a \in 1..Len(ev.rows) |-> Scaled(ev.rows[a], PowI(Stretch(n), SumSeq(ev.al[a])))]]
    [] ev.k = "nodes" -> [ev EXCEPT !.ent = Renumber(n, ev.ent), !.x = [i \in 1..Len(ev.x) |-> Back(n, ev.x[i])]]
    [] ev.k = "supp" -> [ev EXCEPT !.asked = [i \in 1..Len(ev.asked) |-> [ev.asked[i] EXCEPT !.ent = Renumber(n, ev.asked[i].ent)]]]
    [] OTHER -> ev
OtherShape(n, ev) ==
  CASE ev.k = "layout" -> C("entities of the cell are the keys", OtherKeysOK(n, ev.ent) /\ OtherKeysOK(n, ev.clo))
    [] ev.k \in {"conform", "bern", "nodes"} -> C("entities of the cell are the keys", OtherKeysOK(n, ev.ent))
    [] ev.k = "supp" -> C("every entity has its list", \A i \in 1..Len(ev.asked) : RangeOf(EntKeys(ev.asked[i].ent)) \subseteq RangeOf(GList(Other_(n))))
    [] ev.k = "meta" -> C("the element has the cell it was given", SameCell(ev.cell, Other_(n)))
    [] OTHER -> <<>>
OtherVerdict(ev) ==
  LET shape == OtherShape(ev.x, ev.sub) IN
  IF shape # <<>> THEN shape ELSE
  LET b == Deep(Brought(ev.x, ev.sub)) IN
  CASE b.k = "layout" -> LayoutVerdict(b)
    [] b.k = "meta" -> MetaVerdict(b)
    [] b.k = "dual" -> DualVerdict(b)
    [] b.k = "deriv" -> DerivVerdict(b)
    [] b.k = "span" -> SpanVerdict(b)
    [] b.k = "conform" -> ConformVerdict(b)
    [] b.k = "trace" -> TraceVerdict(b)
    [] b.k = "bern" -> BernVerdict(b)
    [] b.k = "nodes" -> NodesVerdict(b)
    [] b.k = "supp" -> SuppVerdict(b)
    [] OTHER -> << "unknown event" >>
=============================================================================
