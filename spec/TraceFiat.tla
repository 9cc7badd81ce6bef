------------------------------ MODULE TraceFiat ------------------------------
(***************************************************************************)
(* Validation of recorded behaviour of the real code: the trace is consumed *)
(* event by event, each event must be one the specification allows, and the *)
(* verdicts on those it does not allow are collected.                       *)
(***************************************************************************)
EXTENDS JudgeOther, Json, IOUtils

Batch  == Deep(JsonDeserialize(IOEnv.TRACE))
Events == Batch.events

Verdict(ev) ==
  CASE ev.k = "exc"    -> << "the code raised an exception on a supported request" >>
    [] ev.k = "layout" -> LayoutVerdict(ev)
    [] ev.k = "meta"   -> MetaVerdict(ev) \o C("the element has the cell it was given", SameCell(ev.cell, CellT(ev.t)))
    [] ev.k = "other"  -> OtherVerdict(ev)
    [] ev.k = "dual"   -> DualVerdict(ev)
    [] ev.k = "deriv"  -> DerivVerdict(ev)
    [] ev.k = "span"   -> SpanVerdict(ev)
    [] ev.k = "conform" -> ConformVerdict(ev)
    [] ev.k = "glue"   -> GlueVerdict(ev)
    [] ev.k = "quad"   -> QuadVerdict(ev)
    [] ev.k = "facequad" -> FaceQuadVerdict(ev)
    [] ev.k = "jacobi" -> JacobiVerdict(ev)
    [] ev.k = "comb"   -> CombVerdict(ev)
    [] ev.k = "pick"   -> PickVerdict(ev)
    [] ev.k = "trace"  -> TraceVerdict(ev)
    [] ev.k = "cell"   -> CellVerdict(ev)
    [] ev.k = "simplex" -> SimplexVerdict(ev)
    [] ev.k = "celleq" -> CellEqVerdict(ev)
    [] ev.k = "cellname" -> CellNameVerdict(ev)
    [] ev.k = "exp"    -> ExpVerdict(ev)
    [] ev.k = "gram"   -> GramVerdict(ev)
    [] ev.k = "expderiv" -> ExpDerivVerdict(ev)
    [] ev.k = "jet"    -> JetVerdict(ev)
    [] ev.k \in {"set", "sym"} -> SetVerdict(ev)
    [] ev.k = "prog"   -> ProgVerdict(ev)
    [] ev.k = "progtab" -> ProgTabVerdict(ev)
    [] ev.k = "proj"   -> ProjVerdict(ev)
    [] ev.k = "jpoly"  -> JPolyVerdict(ev)
    [] ev.k = "dims"   -> DimsVerdict(ev)
    [] ev.k = "fun"    -> FunVerdict(ev)
    [] ev.k = "dset"   -> DSetVerdict(ev)
    [] ev.k = "hist"   -> HistVerdict(ev)
    [] ev.k = "req"    -> ReqVerdict(ev)
    [] ev.k = "supp"   -> SuppVerdict(ev)
    [] ev.k = "contract" -> ContractVerdict(ev)
    [] ev.k = "layout1" -> PointwiseVerdict(ev)
    [] ev.k = "bern"   -> BernVerdict(ev)
    [] ev.k = "nodes"  -> NodesVerdict(ev)
    [] OTHER -> << "unknown event" >>

VARIABLES tracepos, verdicts
tvars == << tracepos, verdicts >>

TraceInit == tracepos = 1 /\ verdicts = <<>>
TraceNext ==
  /\ tracepos <= Len(Events)
  /\ tracepos' = tracepos + 1
  /\ LET v == Deep(Verdict(Events[tracepos])) IN
     verdicts' = IF v = <<>> THEN verdicts ELSE Append(verdicts, [at |-> tracepos, why |-> v])
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* written when the whole trace has been consumed *)
Report == tracepos <= Len(Events)
          \/ JsonSerialize(IOEnv.OUT, [n |-> tracepos - 1, bad |-> verdicts])
=============================================================================
