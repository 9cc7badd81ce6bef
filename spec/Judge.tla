-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Verdicts.  An event is what the real code was asked and what it answered *)
(* (a record); a verdict is the sequence of names of the clauses of the     *)
(* specification which the answer breaks.  Verdicts are total: shapes are   *)
(* judged first, contents only where the shapes are right.                  *)
(***************************************************************************)
EXTENDS Spaces

C(name, ok) == IF ok THEN <<>> ELSE << name >>
(* judge the rest only where the first verdict is clean *)
IsSeqOf(s, n) == Len(s) = n
First(name, ok) == C(name, ok)

-----------------------------------------------------------------------------
(* Layout of degrees of freedom and metadata                                *)
SetOf(s) == RangeOf(s)
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o SetToSeq_(S \ {x})

Order(t) ==                       \* get_order() of the elementary families
  CASE t.f \in {"RT", "N1", "DRT"} -> t.k - 1
    [] t.f = "Trace" -> PDeg(t)
    [] t.f \in {"Bub", "FBub"} -> 0
    [] t.f = "KMV" -> KMVdeg(Dm(t), t.k)
    [] OTHER -> t.k

EntKeys(seq) == [i \in 1..Len(seq) |-> << seq[i].c, seq[i].e >>]
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

(* a point (numbers) lies in the closure of an entity *)
OnEntity(c, code, e, x, tol) ==
  LET d  == Dim(c)
      vs == EntVerts(c, code, e)
      V(i) == At(Verts(c), vs[i])
      T  == Tangents(c, code, e)
      m  == Len(T)
      \* every UFC tangent system is unimodular over {-1,0,1}: solve by the coordinates themselves.
      \* A simplex entity: barycentric coordinates of the cell vanish off the entity.
  IN CASE c.k = "simplex" ->
            LET b(v) == IF v = 0 THEN Sub(One, VSum(x)) ELSE x[v] IN
            \A v \in 0..d : IF v \in SetOf(vs) THEN ~IsNeg(Add(b(v), tol)) ELSE Near(b(v), Zero, tol)
       [] OTHER -> \* products: coordinatewise box hull for boxes, factorwise otherwise
            LET RECURSIVE In(_, _, _, _)
                In(cc, cd, ee, y) ==
                  CASE cc.k = "simplex" ->
                         LET ws == IF cc.d = 0 THEN <<0>> ELSE EntVerts(cc, cd, ee)
                             b(v) == IF v = 0 THEN Sub(One, VSum(y)) ELSE y[v] IN
                         \A v \in 0..cc.d : IF v \in SetOf(ws) THEN ~IsNeg(Add(b(v), tol)) ELSE Near(b(v), Zero, tol)
                    [] cc.k = "flat" -> LET u == Unflatten(cc.c[1], cd[1], ee) IN In(cc.c[1], u[1], u[2], y)
                    [] OTHER ->
                         LET parts == SplitCode(cc.c, cd)
                             ns == SplitNum([i \in 1..Len(cc.c) |-> NEnts(cc.c[i], parts[i])], ee)
                             xs == SplitPt([i \in 1..Len(cc.c) |-> Dim(cc.c[i])], y)
                         IN \A i \in 1..Len(cc.c) : In(cc.c[i], parts[i], ns[i], xs[i])
            IN In(c, code, e, x)

LayoutVerdict(ev) ==
  LET t  == ev.t
      c  == CellT(t)
      el == EntList(c)
      nd == SpaceDim(t)
      ks == EntKeys(ev.ent)
      kc == EntKeys(ev.clo)
      all == Flatten([i \in 1..Len(ev.ent) |-> ev.ent[i].d])
      shape == C("space dimension", ev.dim = nd)
            \o C("one functional per basis function", ev.nnodes = nd)
            \o C("the entities of the cell are the keys", NoDup(ks) /\ SetOf(ks) = SetOf(el))
            \o C("the entities of the cell are the keys of the closure map", NoDup(kc) /\ SetOf(kc) = SetOf(el))
            \o C("dofs partition", NoDup(all) /\ SetOf(all) = 0..(nd - 1))
  IN IF shape # <<>> THEN shape ELSE
     LET dofs(s) == LET i == CHOOSE j \in 1..Len(ks) : ks[j] = s IN ev.ent[i].d
         D == Deep([s \in SetOf(el) |-> dofs(s)])
         K == Deep([s \in SetOf(el) |-> LET i == CHOOSE j \in 1..Len(kc) : kc[j] = s IN ev.clo[i].d])
     IN C("number of dofs per entity", \A i \in 1..Len(el) : Len(D[el[i]]) = NPer(t, el[i][1], el[i][2]))
        \o C("closure dofs", \A s \in SetOf(el) :
               /\ NoDup(K[s])
               /\ SetOf(K[s]) = UNION { SetOf(D[r]) : r \in SetOf(SubEnts(c, s[1], s[2])) })
        \o C("functionals live on the entity of their dof", \A i \in 1..Len(ev.sup) :
               LET dof == ev.sup[i].i
                   s == CHOOSE r \in SetOf(el) : dof \in SetOf(D[r])
               IN \A p \in 1..Len(ev.sup[i].x) : OnEntity(c, s[1], s[2], ev.sup[i].x[p], Tol(24)))

MetaVerdict(ev) ==
  LET t == ev.t IN
  C("value shape", ev.vs = VShape(t))
  \o C("mapping", ev.maps = Maps(t))
  \o C("form degree", ev.fd = FormDeg(t))
  \o C("degree", ev.deg = PDeg(t))
  \o (IF IsComposite(t) THEN <<>> ELSE C("order", ev.ord = Order(t)))
  \o C("nodality", ev.nod = Nodal(t))
  \o C("number of sub-elements", ev.sub = (IF t.f = "mix" THEN Len(t.p) ELSE 1))
  \o C("space dimension", ev.dim = SpaceDim(t))
=============================================================================
