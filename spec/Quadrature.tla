------------------------------ MODULE Quadrature ------------------------------
(***************************************************************************)
(* All quadrature rules within the bounds: elementary ones, and those that  *)
(* come from them by tensor products.  TLC checks what they promise for     *)
(* coherence and prints them.                                               *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

QTier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
QDeep == QTier = "thorough"
CreateHi(c) == CASE c \in {"interval", "default line"} -> IF QDeep THEN 40 ELSE 30
                 [] c \in {"triangle", "default triangle", "intrepid triangle"} -> IF QDeep THEN 21 ELSE 15
                 [] c \in {"tetrahedron", "default tetrahedron", "intrepid tetrahedron"} -> IF QDeep THEN 14 ELSE 10
                 [] c \in {"quadrilateral", "interval * interval"} -> IF QDeep THEN 12 ELSE 8
                 [] c = "vertex" -> 3
                 [] Dim(CellOf(c)) = 2 -> IF QDeep THEN 8 ELSE 5
                 [] Dim(CellOf(c)) = 3 -> IF QDeep THEN 8 ELSE 5
                 [] OTHER -> IF QDeep THEN 4 ELSE 2
SimplexLike == {"vertex", "interval", "triangle", "tetrahedron"}
Created == { Rule("create", c, <<n>>, v) : c \in CellNames \union OtherCells, n \in 0..40, v \in {"default", "canonical"} }
CreatedIn == { r \in Created : r.n[1] <= CreateHi(r.c) }
KMVs == { Rule("create", "triangle", <<n>>, "KMV") : n \in 1..5 } \union { Rule("create", "tetrahedron", <<n>>, "KMV") : n \in 1..3 }
Pairs(hi) == { << i, j >> : i \in 0..hi, j \in 0..hi }
Tuples == { Rule("create", c, n, v) : c \in {"interval * interval", "quadrilateral", "triangle * interval", "interval * triangle",
                                            "vertex * interval"},
              n \in Pairs(IF QDeep THEN 5 ELSE 3), v \in {"default", "canonical"} }
          \union { Rule("create", c, << i, j, k >>, "default") :
              c \in {"interval * interval * interval", "(interval * interval) * interval", "interval * (interval * interval)",
                     "hexahedron", "quadrilateral * interval", "interval * quadrilateral"},
              i \in {0, 3}, j \in {1, 2}, k \in {1, 4} }
Made == { Rule("make", c, <<n>>, "") : c \in {"vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"} \union OtherCells,
            n \in 1..(IF QDeep THEN 7 ELSE 5) }
Lines == { Rule("GJ", c, <<n>>, "") : c \in {"interval", "default line"}, n \in 1..(IF QDeep THEN 24 ELSE 14) \union {20, 32} }
         \union { Rule("GL", c, <<n>>, "") : c \in {"interval", "default line"}, n \in 1..(IF QDeep THEN 24 ELSE 14) \union {20, 32} }
         \union { Rule("GLL", c, <<n>>, "") : c \in {"interval", "default line"}, n \in 2..(IF QDeep THEN 24 ELSE 14) \union {20, 32} }
         \union { Rule("GR", c, <<n>>, v) : c \in {"interval", "default line"}, n \in 1..(IF QDeep THEN 16 ELSE 12) \union {20}, v \in {"right", "left"} }
Faces == { Rule("face", "triangle", <<n>>, v) : n \in 1..5, v \in {"0", "1", "2", "3"} }
Jacobis == { Rule(r, "interval", << a, b, n >>, "") : r \in {"jacobi", "orthogauss"}, a \in 0..3, b \in 0..3, n \in 1..(IF QDeep THEN 8 ELSE 6) } \ { r \in { Rule("orthogauss", "interval", << a, b, 1 >>, "") : a \in 0..3, b \in 0..3 } : TRUE }
Moments(r) == r.r \in {"jacobi", "orthogauss"}

VARIABLES rule, depth
qvars == << rule, depth >>
Small == { r \in Lines : r.c = "interval" /\ r.n[1] <= 3 } \union { Rule("create", "triangle", <<2>>, "default"), Rule("make", "vertex", <<1>>, ""),
           Rule("create", "triangle", <<3>>, "KMV"), Rule("make", "quadrilateral", <<2>>, "") }
QInit == depth = 0 /\ rule \in CreatedIn \union KMVs \union Tuples \union Made \union Lines \union Faces \union Jacobis
(* tensor products of two or three rules *)
QNext ==
  /\ depth < 2 /\ depth' = depth + 1
  /\ rule.r = "tensor" \/ rule \in Small
  /\ \E s \in Small :
       LET ps == (IF rule.r = "tensor" THEN rule.p ELSE << rule >>) \o << s >> IN
       /\ Dim(RuleCell(rule)) + Dim(RuleCell(s)) <= 3
       /\ depth = 1 => s.n[1] = 2 /\ s.v # "left"
       /\ rule' = TensorRule(ps)
QSpec == QInit /\ [][QNext]_qvars
QView == rule

QInv == \/ Moments(rule)
        \/ /\ Len(Exact(rule)) = Len(RuleDims(rule))
           /\ SumSeq(RuleDims(rule)) = Dim(RuleCell(rule))
           /\ \A i \in 1..Len(Exact(rule)) : Exact(rule)[i] >= 0
           \* a rule with n points per direction cannot be exact beyond 2n - 1
           /\ NPoints(rule) # None => NPoints(rule) >= 1
           /\ (rule.r \in {"GJ", "GL", "GLL", "GR"}) => Exact(rule)[1] <= 2 * NPoints(rule) - 1
EmitRule == PrintT(<<"RULE", ToJson(rule)>>)
=============================================================================
