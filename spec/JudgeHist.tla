------------------------------- MODULE JudgeHist -------------------------------
(***************************************************************************)
(* C16: the session is one the machine of History.tla admits, and every     *)
(* answer is the one the element gives in a session of its own.             *)
(***************************************************************************)
EXTENDS JudgeFun

SameAnswer(a, b) == /\ a.s = b.s
                    /\ Len(a.v) = Len(b.v)
                    /\ \A i \in 1..Len(a.v) : Near(a.v[i], b.v[i], Mul(Tol(24), OnePlus(b.m)))
RECURSIVE HistFrom(_, _, _)
HistFrom(ev, n, built) ==
  IF n > Len(ev.steps) THEN <<>>
  ELSE LET s == ev.steps[n]  t == ev.subs[s.i + 1] IN
       IF s.op = "make"
       THEN C("parts exist before the whole", \A j \in 1..Len(t.p) : \E k \in built : ev.subs[k + 1] = t.p[j])
            \o HistFrom(ev, n + 1, built \union {s.i})
       ELSE C("only what exists is asked", s.i \in built)
            \o C("an answer depends on the element and the question alone", SameAnswer(s.got, ev.fresh[s.i + 1][s.r + 1]))
            \o HistFrom(ev, n + 1, built)
HistVerdict(ev) == LET v == HistFrom(ev, 1, {}) IN IF v = <<>> THEN v ELSE << v[1] >>
=============================================================================
