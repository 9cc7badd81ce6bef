-------------------------------- MODULE Requests --------------------------------
(***************************************************************************)
(* What a user hands to tabulate: a batch of points on an entity (or on the *)
(* whole cell, the entity left out), in some container, with an order of    *)
(* derivatives.  A batch is a walk through the points of the entity, it may *)
(* come back to a point.  The table has one column per point of the batch,  *)
(* and that column is a matter of the element and the point alone.          *)
(***************************************************************************)
EXTENDS Algebra

VARIABLES desk, batch, asked
rvars == << desk, batch, asked, vars >>

(* which points of ReqPts, how the batch is written down, highest derivative *)
HowMany == 6
Orders(t) == IF Dm(t) <= 2 \/ Deeper THEN 0..2 ELSE 0..1
Ents_q(t) == EntList(CellT(t))
NPts(s) == IF SumSeq(s[1]) = 0 THEN 1 ELSE 4
Lens == {1, 2, 3, 5}
MaxAsk(t) == (IF Deeper THEN 2 ELSE 1) * Len(Ents_q(t)) + 2
Suited(t) == t.f # "Trace" /\ (Deeper \/ (SpaceDim(t) * NComp(t) <= 120 /\ ~Slow(t)))
(* the entity the next request is about: all in turn, the bare cell in between *)
EntAt(t, n) == LET l == Ents_q(t) IN
  IF n \in {2, 5} THEN << TopCode(CellT(t)), 0, FALSE >>
  ELSE LET i == (((IF n < 2 THEN n ELSE IF n < 5 THEN n - 1 ELSE n - 2) - 1) % Len(l)) + 1 IN << l[i][1], l[i][2], TRUE >>

RInit == Init /\ desk = <<>> /\ batch = <<>> /\ asked = <<>>
RGrow == desk = <<>> /\ Next /\ UNCHANGED << desk, batch, asked >>
Sit == /\ desk = <<>> /\ Suited(term) /\ Len(Ents_q(term)) >= 1 /\ UNCHANGED << vars, batch, asked >>
       /\ desk' \in { << x >> : x \in (IF Deeper THEN 0..3 ELSE { (term.k + SpaceDim(term)) % 4 }) }
Target == EntAt(term, Len(asked) + 1)
WantLen == LET n == Len(asked) + desk[1] IN << 3, 1, 5, 2 >>[(n % 4) + 1]
AddPoint == /\ desk # <<>> /\ Len(asked) < MaxAsk(term) /\ Len(batch) < WantLen
            /\ batch' = Append(batch, (desk[1] + 3 * Len(batch) + Len(asked)) % NPts(Target))
            /\ UNCHANGED << desk, asked, vars >>
Submit == /\ desk # <<>> /\ Len(asked) < MaxAsk(term) /\ Len(batch) = WantLen
          /\ LET o == Orders(term) IN
             asked' = Append(asked, [c |-> Target[1], e |-> Target[2], named |-> Target[3], batch |-> batch,
                                     how |-> (Len(asked) + desk[1]) % HowMany,
                                     order |-> (Len(asked) + desk[1]) % Cardinality(o)])
          /\ batch' = <<>> /\ UNCHANGED << desk, vars >>
RNext == RGrow \/ Sit \/ AddPoint \/ Submit
RSpec == RInit /\ [][RNext]_rvars
RView == << term, desk, batch, asked >>
(* every entity of the cell is asked about *)
RInv == desk # <<>> /\ Len(asked) = MaxAsk(term) =>
          \A i \in 1..Len(Ents_q(term)) : \E j \in 1..Len(asked) :
             asked[j].named /\ << asked[j].c, asked[j].e >> = << Ents_q(term)[i][1], Ents_q(term)[i][2] >>
EmitReq == desk # <<>> /\ Len(asked) = MaxAsk(term) =>
  PrintT(<<"REQ", ToJson([t |-> term, dim |-> SpaceDim(term), nc |-> NComp(term), reqs |-> asked])>>)
=============================================================================
