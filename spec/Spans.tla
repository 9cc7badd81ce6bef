-------------------------------- MODULE Spans --------------------------------
(***************************************************************************)
(* Hands the documented spanning sets of all elementary elements to the     *)
(* drivers, which look for witnesses; the judge re-derives the sets.        *)
(***************************************************************************)
EXTENDS Algebra, Spaces, SequencesExt

SpanTerms == Deep(SetToSeq({ t \in Prims : HasSpan(t) /\ t.v = "" }))
VARIABLE spanpos
SpanInit == spanpos = 1 /\ term = SpanTerms[1] /\ nops = 0
SpanNext == spanpos < Len(SpanTerms) /\ spanpos' = spanpos + 1 /\ UNCHANGED vars
SpanView == spanpos
SpanSpec == SpanInit /\ [][SpanNext]_<<spanpos, vars>>
EmitSpan == PrintT(<<"SPAN", ToJson([t |-> SpanTerms[spanpos], s |-> Span(SpanTerms[spanpos])])>>)
(* a spanning set is never smaller than the space *)
BigEnough == Len(Span(SpanTerms[spanpos])) >= SpaceDim(SpanTerms[spanpos])
=============================================================================
