------------------------------ MODULE Expansions ------------------------------
(***************************************************************************)
(* Orthonormal expansions and polynomial sets: what can be asked of an      *)
(* expansion, and programs that build polynomial sets out of others by      *)
(* taking members, recombining them, and uniting sets.                      *)
(***************************************************************************)
EXTENDS SetTerms, Json, IOUtils

DeepE == IOEnv.TIER = "thorough"
VARIABLES ask
S0 == [kind |-> "", c |-> "", n |-> 0, o |-> 0, shape |-> <<>>, g |-> <<>>]
Ask(kind, c, n, o, shape) == [S0 EXCEPT !.kind = kind, !.c = c, !.n = n, !.o = o, !.shape = shape]
HiE(c) == LET d == UnitD(c) IN IF d = 0 THEN 0 ELSE IF c \notin UfcNames THEN (IF DeepE THEN 5 ELSE 3) ELSE
          (CASE d = 1 -> IF DeepE THEN 24 ELSE 16 [] d = 2 -> IF DeepE THEN 11 ELSE 8 [] OTHER -> IF DeepE THEN 8 ELSE 6)
HiJ(c) == LET d == UnitD(c) IN IF d = 0 THEN -1 ELSE IF c \notin UfcNames THEN (IF DeepE THEN 3 ELSE 2) ELSE
          (CASE d = 1 -> IF DeepE THEN 16 ELSE 12 [] d = 2 -> IF DeepE THEN 5 ELSE 4 [] OTHER -> IF DeepE THEN 4 ELSE 3)
HiS(c) == LET d == UnitD(c) IN CASE d = 0 -> 0 [] d = 1 -> 4 [] d = 2 -> IF DeepE THEN 4 ELSE 3 [] OTHER -> IF DeepE THEN 3 ELSE 2
Shapes_(c) == LET d == UnitD(c) IN IF d = 0 THEN { <<>> } ELSE { <<>>, <<1>>, <<2>>, <<3>>, <<2,2>>, <<3,2>>, <<d,d>> }

Progs == { Ask("prog", c, n, 0, sh) : c \in {"interval", "triangle", "tetrahedron", "DefaultTriangle"}, n \in 1..3, sh \in { <<>>, <<2>>, <<2,2>> } }
ProgIn(a) == SetSize(a) \in 3..12
XInit == ask \in
     { Ask("exp", c, n, 0, <<>>) : c \in ExpCells, n \in 0..24 }
     \union { Ask("gram", c, n, 0, <<>>) : c \in ExpCells \ {"vertex"}, n \in 0..3 }
     \union { Ask("expderiv", c, n, 1, <<>>) : c \in ExpCells, n \in 0..16 }
     \union { Ask("jet", c, n, o, <<>>) : c \in ExpCells, n \in 0..12, o \in 1..3 }
     \union { Ask("set", c, n, o, sh) : c \in ExpCells, n \in 0..4, o \in {0, 2}, sh \in { <<>>, <<1>>, <<2>>, <<3>>, <<2,2>>, <<3,2>>, <<3,3>> } }
     \union { Ask("sym", c, n, o, sh) : c \in ExpCells \ {"vertex"}, n \in 0..3, o \in {0, 2}, sh \in { <<>>, <<2,2>>, <<3,3>> } }
     \union { Ask("proj", c, n, 0, <<>>) : c \in {"DefaultLine", "DefaultTriangle", "DefaultTetrahedron"}, n \in 0..3 }
     \union { Ask("jpoly", "interval", n, 0, << a, b >>) : n \in {0, 1, 2, 5, 8, 10}, a \in 0..4, b \in 0..4 }
     \union { Ask("dims", c, 0, 0, <<>>) : c \in ExpCells }
     \union { a \in Progs : ProgIn(a) }
InBounds(a) ==
  CASE a.kind = "exp" -> a.n <= HiE(a.c)
    [] a.kind = "gram" -> TRUE
    [] a.kind = "expderiv" -> a.n <= HiJ(a.c)
    [] a.kind = "jet" -> UnitD(a.c) >= 2 /\ a.n <= HiJ(a.c) /\ (a.o = 3 => a.n <= 3)
    [] a.kind = "set" -> a.n <= HiS(a.c) /\ a.shape \in Shapes_(a.c) /\ (a.o = 2 => UnitD(a.c) > 0)
    [] a.kind = "sym" -> a.n <= HiS(a.c) /\ (a.shape = <<>> => UnitD(a.c) > 1)
    [] a.kind = "proj" -> a.n > 0 \/ UnitD(a.c) = 1       \* the constant alone is not normalised on triangles
    [] OTHER -> TRUE
(* one more group of members: the set becomes the union with it *)
XNext == /\ ask.kind = "prog" /\ Len(ask.g) < (IF SetSize(ask) <= 6 THEN 3 ELSE 2)
         /\ \E m \in Menu : ask' = [ask EXCEPT !.g = Append(ask.g, m)]
XSpec == XInit /\ [][XNext]_ask
XInv == ask.kind # "prog" \/ ask.g = <<>> \/
        LET r == RankI(AllRows(ask)) IN r >= 1 /\ r <= SetSize(ask)
            /\ \A i \in 1..Len(ask.g) : RankI(Members(SetSize(ask), ask.g[i])) <= r
EmitSet == InBounds(ask) /\ (ask.kind = "prog" => Len(ask.g) > 0) => PrintT(<<"SET", ToJson(ask)>>)
=============================================================================
