------------------------------- MODULE JudgeReq -------------------------------
(***************************************************************************)
(* C17: a table has a column per point of the batch, and the column is that *)
(* of the point alone, whatever it is asked along with, however the batch   *)
(* is written down, and whether the point is given on the cell or on an     *)
(* entity.  Columns are recorded as four sums over functions and components.*)
(***************************************************************************)
EXTENDS JudgeHist

RECURSIVE ReqPts(_)
ReqPts(c) ==
  CASE c.k = "simplex" -> (IF c.d = 0 THEN Rep(<<>>, 4) ELSE GenPts(c))
    [] c.k = "flat" -> ReqPts(c.c[1])
    [] OTHER -> LET cols == [i \in 1..Len(c.c) |-> ReqPts(c.c[i])] IN
                [j \in 1..4 |-> Flatten([i \in 1..Len(c.c) |-> cols[i][((j + i - 2) % 4) + 1]])]
SameSums(a, b) == Len(a.v) = 4 /\ Len(b.v) = 4 /\ \A i \in 1..4 : Near(a.v[i], b.v[i], Mul(Tol(24), OnePlus(b.m)))

ReqVerdict(ev) ==
  LET t == ev.t  c == CellT(t)  d == Dim(c)  el == Deep(EntList(c)) IN
  LET shape == C("entities recorded", [i \in 1..Len(ev.refs) |-> << ev.refs[i].c, ev.refs[i].e >>] = el)
            \o C("space dimension", ev.nf = SpaceDim(t)) IN
  IF shape # <<>> THEN shape ELSE
  LET at(r) == CHOOSE i \in 1..Len(el) : el[i] = << r.c, r.e >>
      als == AlphasUpTo(d, 2)
      one(r) ==
        LET s == at(r)  ref == ev.refs[s]  os == AlphasUpTo(d, r.order) IN
        C("the table has the derivatives asked for", NoDup(r.al) /\ RangeOf(r.al) = os)
        \o C("a row per function, a column per point", r.shape)
        \o C("the points are left as they were", r.kept)
        \o (IF RangeOf(r.al) # os THEN <<>> ELSE
            C("a column depends on its point alone", \A j \in 1..Len(r.batch) : \A i \in 1..Len(r.al) :
                LET k == r.batch[j] + 1
                    n == CHOOSE n \in 1..Len(ref.al) : ref.al[n] = r.al[i]
                IN SameSums(r.cols[i][j], ref.at[k][n])))
  IN C("points of the entity in the cell", \A i \in 1..Len(el) :
        LET ps == ReqPts(EntCell(c, el[i][1])) IN
        /\ RangeOf(ev.refs[i].al) \subseteq als
        /\ Len(ev.refs[i].pts) = (IF SumSeq(el[i][1]) = 0 THEN 1 ELSE 4)
        /\ \A j \in 1..Len(ev.refs[i].pts) : ev.refs[i].pts[j] = Embed(c, el[i][1], el[i][2], ps[j], 12))
     \o Flatten([i \in 1..Len(ev.reqs) |-> one(ev.reqs[i])])
=============================================================================
