---------------------------- MODULE ProductProof ----------------------------
(***************************************************************************)
(* Enclosures of products, and rounding outwards, for all integers (bounds *)
(* on a common scale): machine-checked proof (tlapm) of what MCInterval    *)
(* checks for some.                                                        *)
(***************************************************************************)
EXTENDS Integers, TLAPS
Min(x, y) == IF x <= y THEN x ELSE y
Max(x, y) == IF x <= y THEN y ELSE x
Lo(a, b, c, d) == Min(Min(a * c, a * d), Min(b * c, b * d))
Hi(a, b, c, d) == Max(Max(a * c, a * d), Max(b * c, b * d))
\* a linear function on an interval lies between its values at the ends
LEMMA Ends == \A a, b, x, y \in Int : (a <= x /\ x <= b) =>
                 /\ Min(a * y, b * y) <= x * y /\ x * y <= Max(a * y, b * y)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW x \in Int, NEW y \in Int, a <= x, x <= b
             PROVE Min(a * y, b * y) <= x * y /\ x * y <= Max(a * y, b * y) OBVIOUS
<1>1. \A n, m \in Nat : n * m >= 0 OBVIOUS
<1>2. CASE y >= 0
  <2>1. (x - a) * y >= 0 /\ (b - x) * y >= 0 BY <1>1, <1>2
  <2>2. (x - a) * y = x * y - a * y /\ (b - x) * y = b * y - x * y OBVIOUS
  <2> QED BY <2>1, <2>2 DEF Min, Max
<1>3. CASE y < 0
  <2>1. (x - a) * (-y) >= 0 /\ (b - x) * (-y) >= 0 BY <1>1, <1>3
  <2>2. (x - a) * (-y) = a * y - x * y /\ (b - x) * (-y) = x * y - b * y OBVIOUS
  <2> QED BY <2>1, <2>2 DEF Min, Max
<1> QED BY <1>2, <1>3
LEMMA MinMax == \A p, q, u, v \in Int : /\ Min(p, q) \in Int /\ Max(p, q) \in Int
                                        /\ (p >= u /\ q >= v) => Min(p, q) >= Min(u, v)
                                        /\ (p <= u /\ q <= v) => Max(p, q) <= Max(u, v)
BY DEF Min, Max
THEOREM Product ==
  \A a, b, c, d, x, y \in Int : (a <= x /\ x <= b /\ c <= y /\ y <= d) =>
     Lo(a, b, c, d) <= x * y /\ x * y <= Hi(a, b, c, d)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, NEW d \in Int, NEW x \in Int, NEW y \in Int,
                    a <= x, x <= b, c <= y, y <= d
             PROVE Lo(a, b, c, d) <= x * y /\ x * y <= Hi(a, b, c, d) OBVIOUS
<1>1. Min(a * y, b * y) <= x * y /\ x * y <= Max(a * y, b * y) BY Ends
<1>2. Min(a * c, a * d) <= a * y /\ a * y <= Max(a * c, a * d)
  <2>1. c * a = a * c /\ d * a = a * d /\ y * a = a * y OBVIOUS
  <2> QED BY <2>1, Ends
<1>3. Min(b * c, b * d) <= b * y /\ b * y <= Max(b * c, b * d)
  <2>1. c * b = b * c /\ d * b = b * d /\ y * b = b * y OBVIOUS
  <2> QED BY <2>1, Ends
<1> DEFINE p == a * y  q == b * y  z == x * y
           u == Min(a * c, a * d)  v == Min(b * c, b * d)  s == Max(a * c, a * d)  t == Max(b * c, b * d)
<1>4. p \in Int /\ q \in Int /\ z \in Int /\ u \in Int /\ v \in Int /\ s \in Int /\ t \in Int BY DEF Min, Max
<1>5. Lo(a, b, c, d) = Min(u, v) /\ Hi(a, b, c, d) = Max(s, t) BY DEF Lo, Hi
<1>6. Min(p, q) <= z /\ z <= Max(p, q) /\ u <= p /\ p <= s /\ v <= q /\ q <= t BY <1>1, <1>2, <1>3
<1> HIDE DEF p, q, z, u, v, s, t
<1>7. Min(u, v) <= z /\ z <= Max(s, t) BY <1>4, <1>6 DEF Min, Max
<1> QED BY <1>5, <1>7 DEF z
\* rounding the bounds down and up to a coarser scale loses nothing, and nothing tighter does
Down(n, s) == n \div s
Up(n, s) == -((-n) \div s)
THEOREM Outward == \A n \in Int : \A s \in Nat \ {0} :
  /\ Down(n, s) * s <= n /\ n < (Down(n, s) + 1) * s
  /\ n <= Up(n, s) * s /\ (Up(n, s) - 1) * s < n
<1> SUFFICES ASSUME NEW n \in Int, NEW s \in Nat \ {0}
             PROVE /\ Down(n, s) * s <= n /\ n < (Down(n, s) + 1) * s
                   /\ n <= Up(n, s) * s /\ (Up(n, s) - 1) * s < n OBVIOUS
<1>1. \A m \in Int : m \div s \in Int /\ s * (m \div s) <= m /\ m < s * (m \div s) + s
  <2> TAKE m \in Int
  <2>0. s \in Int /\ s > 0 OBVIOUS
  <2>1. m \div s \in Int BY <2>0
  <2>2. m % s \in 0..(s - 1) BY <2>0
  <2>3. m = s * (m \div s) + (m % s) BY <2>0
  <2> DEFINE w == m \div s
             r == m % s
             z == s * w
  <2>4. z \in Int BY <2>0, <2>1
  <2>5. r \in Int /\ 0 <= r /\ r < s /\ m = z + r BY <2>0, <2>2, <2>3
  <2> HIDE DEF w, r, z
  <2>6. z <= m /\ m < z + s BY <2>0, <2>4, <2>5
  <2> QED BY <2>1, <2>6 DEF w, z
<1> DEFINE g == n \div s  h == (-n) \div s
<1>2. g \in Int /\ s * g <= n /\ n < s * g + s BY <1>1
<1>3. h \in Int /\ s * h <= -n /\ -n < s * h + s
  <2>1. -n \in Int OBVIOUS
  <2> QED BY <1>1, <2>1
<1>4. Down(n, s) = g /\ Up(n, s) = -h BY DEF Down, Up
<1> HIDE DEF g, h
<1>a. \A i \in Int : i * s = s * i /\ (i + 1) * s = s * i + s OBVIOUS
<1>b. \A i \in Int : (-i) * s = -(s * i) OBVIOUS
<1>c. \A i \in Int : (-i - 1) * s = -(s * i) - s
  <2> TAKE i \in Int
  <2>1. (-i - 1) * s = (-i) * s - s OBVIOUS
  <2> QED BY <2>1, <1>b
<1>5. g * s = s * g /\ (g + 1) * s = s * g + s /\ (-h) * s = -(s * h) /\ (-h - 1) * s = -(s * h) - s BY <1>2, <1>3, <1>a, <1>b, <1>c
<1> QED BY <1>2, <1>3, <1>4, <1>5
=============================================================================
