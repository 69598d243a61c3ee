------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* The field Q(sqrt 2, sqrt 3): numbers as vectors <<a, b, c, d>> of       *)
(* rationals standing for a + b*sqrt 2 + c*sqrt 3 + d*sqrt 6.  Here        *)
(* arithmetic and equality are trivially exact, which makes the field an   *)
(* independent yardstick for Algebraic.tla (MCField compares them) and a   *)
(* source of programs whose values stay in a small field.                  *)
(***************************************************************************)
EXTENDS Algebraic
Q(n) == <<Z(n), "1">>
FInt(n) == <<Q(n), Q(0), Q(0), Q(0)>>
FNorm(u) == [j \in 1..4 |-> RNorm(u[j])]
FAdd(u, v) == FNorm([j \in 1..4 |-> RAdd(u[j], v[j])])
FNeg(u) == [j \in 1..4 |-> RNeg(u[j])]
FSub(u, v) == FAdd(u, FNeg(v))
R3(x, y, z) == RAdd(RAdd(x, y), z)
S4(x, y, z, w) == RAdd(RAdd(x, y), RAdd(z, w))
Times(n, x) == RMul(Q(n), x)
FMul(u, v) == FNorm(<<
  S4(RMul(u[1], v[1]), Times(2, RMul(u[2], v[2])), Times(3, RMul(u[3], v[3])), Times(6, RMul(u[4], v[4]))),
  S4(RMul(u[1], v[2]), RMul(u[2], v[1]), Times(3, RMul(u[3], v[4])), Times(3, RMul(u[4], v[3]))),
  S4(RMul(u[1], v[3]), RMul(u[3], v[1]), Times(2, RMul(u[2], v[4])), Times(2, RMul(u[4], v[2]))),
  S4(RMul(u[1], v[4]), RMul(u[4], v[1]), RMul(u[2], v[3]), RMul(u[3], v[2])) >>)
FIsZero(u) == \A j \in 1..4 : RSgn(u[j]) = 0
\* conjugations: sqrt 2 -> -sqrt 2, sqrt 3 -> -sqrt 3
Conj2(u) == <<u[1], RNeg(u[2]), u[3], RNeg(u[4])>>
Conj3(u) == <<u[1], u[2], RNeg(u[3]), RNeg(u[4])>>
Others(u) == FMul(Conj2(u), FMul(Conj3(u), Conj2(Conj3(u))))
NormOf(u) == FMul(u, Others(u))[1]          \* rational, not 0 for u # 0
FInv(u) == LET n == RInv(RNorm(NormOf(u))) IN FNorm([j \in 1..4 |-> RMul(n, Others(u)[j])])
FDiv(u, v) == FMul(u, FInv(v))
\* floor of 2^n times the number, up to 2 units: enclosures of the roots
FBox(u, n) ==
  LET w == n + 24
      rt(m) == LET f == ZIsqrt(ZShl(m, 2 * w)) IN <<f, ZAdd(f, "1"), w>>
      term(q, B) == LET y == BMul(BRat(q, w), B) IN y
  IN  BAdd(BAdd(BRat(u[1], w), term(u[2], rt("2"))), BAdd(term(u[3], rt("3")), term(u[4], rt("6"))))
FSgn(u) == IF FIsZero(u) THEN 0
           ELSE LET RECURSIVE S(_)
                    S(n) == LET x == FBox(u, n) IN IF ZSgn(x[1]) > 0 THEN 1 ELSE IF ZSgn(x[2]) < 0 THEN -1 ELSE S(2 * n)
                IN  S(16)
\* the characteristic polynomial, (x - u)(x - u2)(x - u3)(x - u23), as a primitive integer polynomial
CharPoly(u) ==
  LET us == <<u, Conj2(u), Conj3(u), Conj2(Conj3(u))>>
      \* coefficients in the field, constant first
      lin(v, s) == [j \in 1..(Len(s) + 1) |-> FSub(IF j = 1 THEN FInt(0) ELSE s[j - 1], IF j > Len(s) THEN FInt(0) ELSE FMul(v, s[j]))]
      cs == lin(us[4], lin(us[3], lin(us[2], lin(us[1], <<FInt(1)>>))))
      den == FoldSeq(LAMBDA c, acc : ZMul(acc, c[1][2]), "1", cs)
  IN  PPrim([j \in 1..5 |-> ZDiv(ZMul(cs[j][1][1], den), cs[j][1][2])])
\* a representation as in Algebraic.tla, with an interval of about 2^-n
Num(u, n) == LET x == FBox(u, n)  s == x[3] - n
             IN  [p |-> PSqFree(CharPoly(u)), lo |-> ZShl(x[1], -s), hi |-> ZNeg(ZShl(ZNeg(x[2]), -s)), k |-> n]
=============================================================================
