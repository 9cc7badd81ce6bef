-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Fixed-point numbers.  TLC integers have 32 bits, so a real number is a   *)
(* pair <<hi, lo>>, 0 <= lo < 2^30, standing for (hi*2^30 + lo) / 2^38.     *)
(* That gives 3.6e-12 resolution over +-8.3e6.  Everything saturates at     *)
(* |hi| = MaxHi; a saturated number (also the encoding of NaN, infinity and *)
(* of anything out of range) is not IsNum and is never Near anything.       *)
(*                                                                         *)
(* The definitions below are the semantics.  Num.java holds the same        *)
(* operators over 64-bit integers, which TLC uses when the class is on its  *)
(* classpath; SelfTestNum.tla checks that the two agree.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB    == 1024                       \* limb base
MaxHi == 2147483647
Q30   == 1073741824

Sat(neg) == IF neg THEN <<-MaxHi, 0>> ELSE <<MaxHi, 0>>
IsNum(a) == a[1] < MaxHi /\ a[1] > -MaxHi

(* 7 limbs of a number: value = SUM d[i] * 1024^(i-1), d[7] signed *)
Limbs(a) == << a[2] % LB, (a[2] \div LB) % LB, a[2] \div (LB*LB),
               a[1] % LB, (a[1] \div LB) % LB, (a[1] \div (LB*LB)) % LB,
               a[1] \div Q30 >>

RECURSIVE CarryFrom(_, _, _)
CarryFrom(c, k, car) ==             \* normalise limbs, the last one stays signed
  IF k = Len(c) THEN << c[k] + car >>
  ELSE << (c[k] + car) % LB >> \o CarryFrom(c, k + 1, (c[k] + car) \div LB)
Carry(c) == CarryFrom(c, 1, 0)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

(* from normalised limbs (at least 7, last signed) back to a pair *)
FromLimbs(e) ==
  LET n    == Len(e)
      neg  == e[n] < 0
      ext  == IF neg THEN LB - 1 ELSE 0
      \* limbs 8..n must be a pure sign extension
      high == IF n = 7 THEN TRUE
              ELSE /\ \A k \in 8..(n-1) : e[k] = ext
                   /\ e[n] = (IF neg THEN -1 ELSE 0)
      top  == IF n = 7 THEN e[7] ELSE IF neg THEN e[7] - LB ELSE e[7]
  IN  IF ~high \/ top < -2 \/ top > 1 THEN Sat(neg)
      ELSE LET h == e[4] + e[5]*LB + e[6]*LB*LB    \* < 2^30
               hi == IF top = -2 THEN (h - Q30) - Q30 ELSE IF top = -1 THEN h - Q30
                     ELSE IF top = 0 THEN h ELSE (h - 1) + Q30 + 1
           IN  IF top = -2 /\ h = 0 THEN Sat(TRUE) ELSE
               << hi, e[1] + e[2]*LB + e[3]*LB*LB >>

Zero == <<0, 0>>
One  == <<256, 0>>
FromInt(k) == << k * 256, 0 >>                       \* |k| < 2^23

Add(a, b) == LET x == Limbs(a)  y == Limbs(b) IN
             IF ~IsNum(a) THEN a ELSE IF ~IsNum(b) THEN b
             ELSE FromLimbs(Carry([i \in 1..7 |-> x[i] + y[i]]))
Neg(a)    == LET x == Limbs(a) IN
             IF ~IsNum(a) THEN << -a[1], 0 >> ELSE FromLimbs(Carry([i \in 1..7 |-> -x[i]]))
Sub(a, b) == Add(a, Neg(b))
IsNeg(a)  == a[1] < 0
Abs(a)    == IF IsNeg(a) THEN Neg(a) ELSE a
Le(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

(* product, rounded towards minus infinity *)
Mul(a, b) ==
  LET x == Limbs(a)  y == Limbs(b)
      c == [k \in 1..13 |-> SumTo([i \in 1..7 |-> IF k - i + 1 \in 1..7 THEN x[i] * y[k-i+1] ELSE 0], 7)]
      e == Carry(Append(c, 0))                         \* 14 limbs
      \* shift right by 38 bits: drop three limbs, then 8 more bits
      f == [k \in 1..11 |-> IF k = 11 THEN e[14] \div 256
                            ELSE (e[k+3] \div 256) + (e[k+4] % 256) * 4]
  IN  IF ~IsNum(a) \/ ~IsNum(b) THEN Sat(IsNeg(a) # IsNeg(b)) ELSE FromLimbs(f)

MulI(a, k) == Mul(a, FromInt(k))

(* division by a positive integer below 2^20, rounded down *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(d, i, r, m) == IF i = 0 THEN << >>
   ELSE LET t == r * LB + d[i] IN Append(DivFrom(d, i - 1, t % m, m), t \div m)
DivI(a, m) == IF ~IsNum(a) THEN a ELSE
   LET d == Limbs(a)
       q7 == d[7] \div m   r7 == d[7] % m
   IN  FromLimbs(Append(DivFrom(d, 6, r7, m), q7))

Rat(p, q) == DivI(FromInt(p), q)                      \* |p| < 2^23, 0 < q < 2^20

RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN Zero ELSE Add(DotTo(u, v, n - 1), Mul(u[n], v[n]))
Dot(u, v) == DotTo(u, v, Len(u))

RECURSIVE VSumTo(_, _)
VSumTo(u, n) == IF n = 0 THEN Zero ELSE Add(VSumTo(u, n - 1), u[n])
VSum(u) == VSumTo(u, Len(u))

(* weighted sum of selected entries of a row *)
SpDot(idx, w, row) == Dot(w, [k \in 1..Len(idx) |-> row[idx[k]]])

(* elementwise *)
VAdd(u, v)   == [i \in 1..Len(u) |-> Add(u[i], v[i])]
VMul(u, v)   == [i \in 1..Len(u) |-> Mul(u[i], v[i])]
VScale(a, u) == [i \in 1..Len(u) |-> Mul(a, u[i])]
(* linear combination of rows *)
LinComb(c, rows) == [p \in 1..Len(rows[1]) |-> Dot(c, [i \in 1..Len(rows) |-> rows[i][p]])]

Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Le(Abs(Sub(a, b)), tol)
AllNear(u, v, tol) == /\ Len(u) = Len(v)
                      /\ \A i \in 1..Len(u) : Near(u[i], v[i], tol)
AllZero(u, tol) == \A i \in 1..Len(u) : Near(u[i], Zero, tol)
AllNum(u) == \A i \in 1..Len(u) : IsNum(u[i])
MaxAbsTo(u) == LET RECURSIVE M(_)
                   M(n) == IF n = 0 THEN Zero ELSE
                           IF Le(M(n-1), Abs(u[n])) THEN Abs(u[n]) ELSE M(n-1)
               IN M(Len(u))
MaxAbs(u) == MaxAbsTo(u)

(* tolerances, written as powers of two *)
Tol(k) == IF k >= 8 THEN << 0, 2^(38-k) >> ELSE << 2^(8-k), 0 >>
=============================================================================
