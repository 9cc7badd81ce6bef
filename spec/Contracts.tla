------------------------------- MODULE Contracts -------------------------------
(***************************************************************************)
(* Requests a user may make by mistake, and legal ones among them: families *)
(* on cells and with degrees they do not exist for, variants and schemes no *)
(* one offers, parts that do not go together.                               *)
(***************************************************************************)
EXTENDS Legality, Json, IOUtils

DeepC == IOEnv.TIER = "thorough"
VARIABLES ask
AllFams == {"P0", "CG", "DG", "Bern", "GLL", "GL", "GR", "Taylor", "CR", "RT", "DRT", "BDM", "BDFM", "N1", "N2", "Regge", "HHJ", "Herm",
            "Arg", "QArg", "Bell", "Morley", "KMV", "AWc", "AWnc", "MTW", "Bub", "FBub", "S", "DPC", "Trace"}
NoDegree == {"P0", "QArg", "Bell", "Morley"}
FixedDegree(f) == CASE f = "P0" -> 0 [] f = "Morley" -> 2 [] OTHER -> 5
CellWords2 == CellWords \ {"quadrilateral * interval"}
ElReq(f, c, k, v) == [Req("el") EXCEPT !.t = Prim(f, c, k, v)]
(* simple elements to be put together, rightly or wrongly *)
Pool == { El("CG", "interval", 1), El("DG", "interval", 0), El("CG", "interval", 2), El("CG", "triangle", 1), El("CG", "triangle", 2), El("DG", "triangle", 0),
          El("DG", "triangle", 1), El("RT", "triangle", 1), El("RT", "triangle", 2), El("BDM", "triangle", 1), El("N1", "triangle", 1), El("Regge", "triangle", 0),
          El("HHJ", "triangle", 0), El("Bern", "triangle", 2), El("Bub", "triangle", 3), El("CR", "triangle", 1), El("Herm", "triangle", 3), El("P0", "triangle", 0),
          El("Morley", "triangle", 2), El("MTW", "triangle", 3), El("CG", "tetrahedron", 1), El("RT", "tetrahedron", 1), El("N1", "tetrahedron", 1), El("S", "quadrilateral", 1), El("DPC", "quadrilateral", 1),
          El("S", "quadrilateral", 2), El("GL", "interval", 1), El("Herm", "interval", 3), El("Bern", "interval", 2), El("Taylor", "triangle", 1), El("AWnc", "triangle", 2) }
ParamReqs ==
  { [Req("quad") EXCEPT !.c = c, !.k = -2, !.s = s] : c \in CellWords, s \in Schemes \union {"nonsense", "kmv", ""} }
  \union { [Req("rule") EXCEPT !.c = c, !.k = -1] : c \in CellWords }
  \union { [Req("ufc_cell") EXCEPT !.s = s] : s \in CellWords \union {"", "point", "square", "Triangle", "triangle*interval", "triangle * ", "simplex", "triangle * nonsense"} }
  \union { [Req(o) EXCEPT !.k = -1] : o \in {"ufc_simplex", "default_simplex"} }
MisuseReqs ==
  { [Req(o) EXCEPT !.c = c, !.k = n, !.s = "default"] : o \in {"quad-each", "trace-each"}, c \in CellWords \ {"vertex"}, n \in 0..4 }
  \union { [Req("quad-each") EXCEPT !.c = c, !.k = n, !.s = "canonical"] : c \in {"interval", "triangle * interval", "hexahedron"}, n \in 0..4 }
  \union { [Req("ent") EXCEPT !.p = << a >>, !.k = n, !.s = s] : a \in Pool, n \in -1..2, s \in {"0", "1", "2", "3", "4"} }
  \union { [Req("short") EXCEPT !.p = << a >>] : a \in Pool }
  \union { [Req("weights") EXCEPT !.c = c, !.k = n] : c \in CellWords \ {"vertex"}, n \in -1..1 }
  \union { [Req("quadel") EXCEPT !.c = c, !.s = s] : c \in CellWords \ {"vertex"}, s \in {"same", "deriv", "entity", "fewer", "moved"} }
PairReqs == { [Req(o) EXCEPT !.p = << a, b >>] : o \in {"enr", "mix", "nod"}, a \in Pool, b \in Pool }
            \union { [Req(o) EXCEPT !.p = << a, b >>] : o \in {"tp", "hdiv", "hcurl"}, a \in { x \in Pool : Dm(x) <= 2 }, b \in { x \in Pool : Dm(x) <= 2 } }
OneReqs == { [Req("res") EXCEPT !.p = << a >>, !.s = s] : a \in Pool, s \in {"interior", "vertex", "edge", "face", "facet", "cell", "Interior", "reduced"} }
           \union { [Req(o) EXCEPT !.p = << a >>] : o \in {"hdiv1", "hcurl1", "flat1", "res-none", "res-empty", "res-string", "res-outside"}, a \in Pool }
ConvCell(x) == << "interval", "triangle", "tetrahedron" >>[ConvDim(x)]
SimplexPart(t) == CellT(t).k = "simplex"
(* parts that would go together, were one of them not on a simplex of another convention *)
ConvPairs == UNION { { [Req(o) EXCEPT !.p = r, !.c = x, !.k = i] : o \in {"enr", "mix", "nod"}, i \in 1..2,
                          r \in { y \in Pool \X Pool : SameKind(y) /\ \A j \in 1..2 : SimplexPart(y[j]) /\ Dm(y[j]) = ConvDim(x) } } : x \in ConvNames }
CInit == \/ \E f \in AllFams : \E c \in CellWords2 : ask = ElReq(f, c, IF f \in NoDegree THEN FixedDegree(f) ELSE -2, "")
         \/ \E f \in HasVariants : \E c \in {"triangle", "tetrahedron"} : \E v \in {"", "point", "integral", "nonsense", "Point", "integral()", "integral(x)", "integral(-3)", "integral(1)", "integral(2)", "integral(3)", "integral(4)", "integral(6)", "pointwise", "integral(4)x"} : ask = ElReq(f, c, 1, v)
         \/ \E f \in AllFams \ {"S", "DPC"} : \E x \in ConvNames : ask = [ElReq(f, ConvCell(x), IF f \in NoDegree THEN FixedDegree(f) ELSE -2, "") EXCEPT !.c = x]
         \/ ask \in ConvPairs
         \/ ask \in ParamReqs \union MisuseReqs \union PairReqs \union OneReqs
(* ask again for the next degree *)
TopK(q) == CASE q.op = "el" -> (IF q.t.v # "" THEN (IF DeepC THEN 3 ELSE 2) ELSE IF DeepC THEN 9 ELSE 7) [] q.op = "quad" -> (IF q.s = "KMV" THEN 8 ELSE 2) [] q.op = "rule" -> 2 [] OTHER -> 6
CNext == \/ ask.op = "el" /\ ask.t.f \notin NoDegree /\ ask.t.k < TopK(ask) /\ ask' = [ask EXCEPT !.t.k = @ + 1]
         \/ ask.op \in {"quad", "rule", "ufc_simplex", "default_simplex"} /\ ask.k < TopK(ask) /\ ask' = [ask EXCEPT !.k = @ + 1]
CSpec == CInit /\ [][CNext]_ask
(* what is enriched can be mixed; only legal elements have dimensions; refusal is decided *)
CInv == /\ Legal(ask) \in {"yes", "no", "open"}
        /\ ask.op = "enr" /\ Legal(ask) = "yes" => Legal([ask EXCEPT !.op = "mix"]) = "yes"
        /\ ask.op = "nod" /\ Legal(ask) # "no" => Legal([ask EXCEPT !.op = "enr"]) = "yes"
        /\ ask.op \in {"enr", "mix"} => Legal(ask) = Legal([ask EXCEPT !.p = << ask.p[2], ask.p[1] >>])
        /\ ask.op = "el" /\ Legal(ask) = "yes" => SpaceDim(ask.t) >= 1
(* legal elements that are cheap stay, as controls *)
Keep(q) == (Legal(q) = "no" /\ (q.op # "el" \/ DeepC \/ q.t.c # "tetrahedron" \/ q.t.k <= 4 \/ q.t.f \notin {"Arg", "HHJ"})) \/ q.op # "el" \/ (Legal(q) = "yes" /\ (q.t.k <= 2 \/ (Dim(CellOf(q.t.c)) <= 2 /\ q.t.k <= 3)))
EmitAsk == Keep(ask) => PrintT(<<"ASK", ToJson(ask)>>)
=============================================================================
