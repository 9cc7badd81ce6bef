-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* A session: elements are built, composed out of elements that are already *)
(* in use, asked questions in some order, asked again, built again.  What   *)
(* an element answers depends on the element and the question alone, never  *)
(* on the session.  The machine walks through sessions: the pool of terms   *)
(* to build is fixed, the stride says in which order questions are asked.   *)
(***************************************************************************)
EXTENDS Algebra

VARIABLES subs, convs, stride, made, cursor, session
hvars == << subs, convs, stride, made, cursor, session, vars >>

NReq == 13                                   \* kinds of questions
RECURSIVE PostOrder(_)
PostOrder(t) == Flatten([i \in 1..Len(t.p) |-> PostOrder(t.p[i])]) \o << t >>
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)] IN
           IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)
SubTerms(t) == Uniq(PostOrder(t))

Cheap(t) == \A i \in 1..Len(SubTerms(t)) : LET u == SubTerms(t)[i] IN SpaceDim(u) <= (IF Deeper THEN 60 ELSE 24) /\ ~Slow(u)
                                             /\ (Deeper \/ u.f = "mix" \/ PDeg(u) <= (CASE Dm(u) = 1 -> 12 [] u.f \in {"S", "DPC"} -> 3 [] Dm(u) = 2 -> (IF u.f \in {"Arg", "QArg", "Bell"} THEN 5 ELSE 3) [] OTHER -> 2))
(* elements whose code, tables or caches could get mixed up *)
Kin(f) == CASE f \in {"CG", "DG", "Bern", "Bub", "P0"} -> 1 [] f \in {"RT", "DRT", "BDM", "BDFM", "MTW"} -> 2
            [] f \in {"N1", "N2"} -> 3 [] f \in {"S", "DPC"} -> 4 [] f \in {"GLL", "GL", "GR"} -> 5 [] f \in {"Regge", "HHJ", "AWc", "AWnc"} -> 6
            [] f \in {"Herm", "Arg", "QArg", "Bell", "Morley", "Taylor"} -> 7 [] OTHER -> 8
Steps_(t, u) == Cardinality({ i \in {1, 2, 3} : CASE i = 1 -> t.c # u.c [] i = 2 -> t.k # u.k [] OTHER -> t.v # u.v })
Near_(t, u) == /\ Deeper \/ t.k < u.k \/ (t.k = u.k /\ Len(t.c) <= Len(u.c))
               /\ IF t.f = u.f THEN Steps_(t, u) = 1 /\ t.k - u.k \in -1..1
                  ELSE Kin(t.f) = Kin(u.f) /\ t.c = u.c /\ t.v = u.v /\ t.v = "" /\ (t.k = u.k \/ t.k + 1 = u.k)
Partners(t) == { u \in Prims : u # t /\ Cheap(u) /\ Near_(t, u) /\ (Deeper \/ Kin(t.f) \notin {2, 3} \/ SpaceDim(t) <= 15) /\ (t.f = u.f \/ SpaceDim(u) <= 12) }
Strides == IF Deeper THEN {1, 5, 7, 11} ELSE {5}
Ufc(s) == [i \in 1..Len(s) |-> ""]
(* a pool: elements, and the convention of the simplex each is built on *)
Pools == IF IsComposite(term) THEN { << SubTerms(term), Ufc(SubTerms(term)) >> }
         ELSE { << << term, u >>, << "", "" >> >> : u \in Partners(term) }
              \union (IF AnyCell(term) THEN { << << term, term >>, << "", x >> >> : x \in ConvsOf(Dm(term)) } ELSE {})

HInit == Init /\ subs = <<>> /\ convs = <<>> /\ stride = 0 /\ made = 0 /\ cursor = 0 /\ session = <<>>
Grow  == stride = 0 /\ Next /\ UNCHANGED << subs, convs, stride, made, cursor, session >>
Begin == /\ stride = 0 /\ Cheap(term) /\ (IF ~Deeper /\ term.f \in {"res", "brk"} THEN SpaceDim(term.p[1]) <= 9 ELSE TRUE) /\ UNCHANGED << vars, made, session >>
         /\ \E p \in Pools : subs' = p[1] /\ convs' = p[2]
         /\ stride' \in Strides /\ cursor' = stride'
Total == Len(subs) * NReq
(* the next element is built once those already there have been asked a few questions *)
Due == made < Len(subs) /\ Len(session) >= 5 * made
MakeNew == /\ stride > 0 /\ Due
           /\ session' = Append(session, [op |-> "make", i |-> made, r |-> 0])
           /\ made' = made + 1 /\ UNCHANGED << subs, convs, stride, cursor, vars >>
HLast == 2 * Len(subs) + Total + 4
(* build the last one once more, out of the elements in use *)
MakeAgain == /\ stride > 0 /\ ~Due /\ made = Len(subs) /\ Len(session) = Len(subs) + 5 + (Total \div 2)
             /\ session' = Append(session, [op |-> "make", i |-> made - 1, r |-> 0])
             /\ UNCHANGED << subs, convs, stride, cursor, made, vars >>
AskNow == /\ stride > 0 /\ ~Due /\ ~(made = Len(subs) /\ Len(session) = Len(subs) + 5 + (Total \div 2)) /\ Len(session) < HLast
          /\ LET m == made * NReq  c == cursor % m IN
             /\ session' = Append(session, [op |-> "ask", i |-> c \div NReq, r |-> c % NReq])
             /\ cursor' = IF c + stride >= m THEN c + stride - m + 1 ELSE c + stride
          /\ UNCHANGED << subs, convs, stride, made, vars >>
HNext == Grow \/ Begin \/ MakeNew \/ MakeAgain \/ AskNow
HSpec == HInit /\ [][HNext]_hvars
HView == << term, subs, convs, stride, Len(session) >>

(* a session only ever asks elements that exist, composed of elements that exist *)
HInv == LET built(n) == { session[j].i : j \in { k \in 1..n : session[k].op = "make" } } IN
  stride > 0 /\ session # <<>> =>
    LET s == session[Len(session)]  b == built(Len(session) - 1) IN
    IF s.op = "ask" THEN s.i \in b /\ s.r \in 0..(NReq - 1)
    ELSE \A j \in 1..Len(subs[s.i + 1].p) : \E k \in b : subs[k + 1] = subs[s.i + 1].p[j]
EmitHist == stride > 0 /\ Len(session) = HLast => PrintT(<<"HIST", ToJson([subs |-> subs, convs |-> convs, stride |-> stride, steps |-> session])>>)
=============================================================================
