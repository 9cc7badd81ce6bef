-------------------------------- MODULE Ladders --------------------------------
(***************************************************************************)
(* Families given by formulas or by points climb to degrees the general     *)
(* enumeration does not reach: Bernstein polynomials, elements collocated   *)
(* at lattices and at the points of quadrature rules, quadrature elements.  *)
(***************************************************************************)
EXTENDS Cells, Json, IOUtils

HighL == IOEnv.TIER = "thorough"
VARIABLES rung
lvars == << rung >>

Top(f, c) ==
  LET t == HighL IN
  CASE f = "Bern" -> (CASE c = "interval" -> IF t THEN 14 ELSE 9 [] c = "triangle" -> IF t THEN 9 ELSE 6 [] OTHER -> IF t THEN 6 ELSE 4)
    [] f \in {"CG", "DG"} -> (CASE c = "interval" -> IF t THEN 12 ELSE 9 [] c = "triangle" -> IF t THEN 7 ELSE 6 [] OTHER -> IF t THEN 5 ELSE 4)
    [] f \in {"GLL", "GL", "GR"} -> IF t THEN 14 ELSE 10
    [] f = "KMV" -> IF c = "triangle" THEN 5 ELSE 3
    [] f = "QEl" -> IF t THEN 12 ELSE 7
Bottom(f) == IF f \in {"DG", "GL", "GR", "QEl"} THEN 0 ELSE 1
Climbers == { << f, c >> : f \in {"Bern", "CG", "DG"}, c \in {"interval", "triangle", "tetrahedron"} }
            \union { << f, "interval" >> : f \in {"GLL", "GL", "GR"} }
            \union { << "KMV", c >> : c \in {"triangle", "tetrahedron"} }
            \union { << "QEl", c >> : c \in {"interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "triangle * interval"} }
LInit == \E x \in Climbers : rung = [f |-> x[1], c |-> x[2], k |-> Bottom(x[1]), v |-> "", p |-> <<>>]
LNext == rung.k < Top(rung.f, rung.c) /\ rung' = [rung EXCEPT !.k = @ + 1]
LSpec == LInit /\ [][LNext]_lvars
(* what is on a rung is not less than what is on the one below *)
Dofs(r) == LET d == Dim(CellOf(r.c)) IN IF r.f \in {"KMV", "QEl"} THEN r.k ELSE Choose(r.k + d, d)
LProp == [][Dofs(rung') > Dofs(rung)]_lvars
LInv == rung.k >= Bottom(rung.f)
EmitRung == PrintT(<<"RUNG", ToJson([t |-> rung])>>)
=============================================================================
