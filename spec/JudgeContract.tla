----------------------------- MODULE JudgeContract -----------------------------
EXTENDS JudgeNodes, Legality

ContractVerdict(ev) ==
  LET q == ev.q  l == Legal(q) IN
  CASE l = "no"   -> C("a request that means nothing is refused", ev.raised)
    [] l = "open" -> <<>>
    [] OTHER -> C("a request that means something is answered", ~ev.raised)
                \o (IF ev.raised THEN <<>> ELSE
                    C("with as much as was asked for",
                      ev.dim = CASE q.op = "el" -> SpaceDim(q.t)
                                 [] q.op \in {"enr", "mix"} -> SumSeq([i \in 1..Len(q.p) |-> SpaceDim(q.p[i])])
                                 [] q.op = "tp" -> SpaceDim(q.p[1]) * SpaceDim(q.p[2])
                                 [] q.op = "res" -> SpaceDim(Res(q.p[1], q.s))
                                 [] q.op = "ufc_cell" -> Dim(CellOf(q.s))
                                 [] q.op \in {"ufc_simplex", "default_simplex"} -> q.k
                                 [] q.op = "ent" -> SpaceDim(q.p[1])
                                 [] q.op = "rule" -> q.k ^ Dim(CellOf(q.c))
                                 [] OTHER -> ev.dim))
=============================================================================
