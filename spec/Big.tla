-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arithmetic on numbers of any size: naturals are little-endian byte      *)
(* sequences without high zero bytes, integers are [n |-> negative, m |->  *)
(* magnitude], and decimal fractions can be rounded to a binary mantissa.  *)
(***************************************************************************)
EXTENDS Lex

B(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

\* -1, 0, 1
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN 0 - 1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddAt(_, _, _, _, _)
NAddAt(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET x == B(a, i) + B(b, i) + c IN NAddAt(a, b, i + 1, x \div 256, Append(acc, x % 256))
NAdd(a, b) == NAddAt(a, b, 1, 0, <<>>)

RECURSIVE NSubAt(_, _, _, _, _)
NSubAt(a, b, i, c, acc) ==
  IF i > Len(a) THEN TrimHi(acc)
  ELSE LET x == 256 + a[i] - B(b, i) - c IN NSubAt(a, b, i + 1, IF x < 256 THEN 1 ELSE 0, Append(acc, x % 256))
NSub(a, b) == NSubAt(a, b, 1, 0, <<>>)                  \* a >= b

RECURSIVE NMulAt(_, _, _, _)
NMulAt(a, b, i, acc) ==
  IF i = 0 THEN acc
  ELSE NMulAt(a, b, i - 1, NAdd(MulAdd(acc, 256, 0), TrimHi(MulAdd(a, b[i], 0))))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE TrimHi(NMulAt(a, b, Len(b), <<>>))

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
Zeros(n) == [i \in 1..n |-> 0]
NShl(a, n) == IF a = <<>> THEN <<>> ELSE TrimHi(Zeros(n \div 8) \o MulAdd(a, Pow2(n % 8), 0))
NShr(a, n) ==
  LET k == n \div 8
      r == Pow2(n % 8)
      b == IF k >= Len(a) THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
  IN TrimHi([i \in 1..Len(b) |-> (b[i] \div r) + (B(b, i + 1) % r) * (256 \div r)])

BitLenByte(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5 ELSE IF x >= 8 THEN 4
                 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE x
BitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitLenByte(a[Len(a)])

\* quotient and remainder, by doubling (b # <<>>)
RECURSIVE NDivAt(_, _, _, _)
NDivAt(r, d, n, q) ==                                   \* d = b * 2^n
  LET ge == NCmp(r, d) >= 0
      r2 == IF ge THEN NSub(r, d) ELSE r
      q2 == NAdd(NShl(q, 1), IF ge THEN <<1>> ELSE <<>>)
  IN IF n = 0 THEN <<q2, r2>> ELSE NDivAt(r2, NShr(d, 1), n - 1, q2)
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN <<<<>>, a>>
  ELSE LET n == BitLen(a) - BitLen(b) IN NDivAt(a, NShl(b, n), n, <<>>)

------------------------------------------------------------------------------
(* integers *)

ZI(n) == IF n < 0 THEN [n |-> TRUE, m |-> BytesOf(0 - n)] ELSE [n |-> FALSE, m |-> BytesOf(n)]
ZMk(neg, m) == [n |-> neg /\ m # <<>>, m |-> m]
Z0 == ZMk(FALSE, <<>>)
Z1 == ZMk(FALSE, <<1>>)
ZNeg(a) == ZMk(~a.n, a.m)
ZAdd(a, b) ==
  IF a.n = b.n THEN ZMk(a.n, NAdd(a.m, b.m))
  ELSE IF NCmp(a.m, b.m) >= 0 THEN ZMk(a.n, NSub(a.m, b.m)) ELSE ZMk(b.n, NSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == ZMk(a.n # b.n, NMul(a.m, b.m))
\* truncating division
ZDiv(a, b) == ZMk(a.n # b.n, NDivMod(a.m, b.m)[1])
ZRem(a, b) == ZMk(a.n, NDivMod(a.m, b.m)[2])
ZCmp(a, b) == IF a.n # b.n THEN (IF a.n THEN 0 - 1 ELSE 1) ELSE IF a.n THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)
ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0

NPow2(n) == NShl(<<1>>, n)
\* the low n bits (n a multiple of 8) of the two's complement representation, as a natural
ZLow(a, n) ==
  LET low == TrimHi(SubSeq(a.m, 1, IF Len(a.m) > n \div 8 THEN n \div 8 ELSE Len(a.m)))
  IN IF a.n /\ low # <<>> THEN NSub(NPow2(n), low) ELSE low
\* reduce to n bits, signed or unsigned
ZWrap(a, n, signed) ==
  LET u == ZLow(a, n)
  IN IF signed /\ BitLen(u) = n THEN ZMk(TRUE, NSub(NPow2(n), u)) ELSE ZMk(FALSE, u)
ZFits(a, n, signed) ==
  IF signed THEN BitLen(a.m) <= n - 1 \/ (a.n /\ a.m = NPow2(n - 1)) ELSE ~a.n /\ BitLen(a.m) <= n

ZFloorShr(a, k) ==                                       \* arithmetic shift right
  IF ~a.n THEN ZMk(FALSE, NShr(a.m, k))
  ELSE LET q == NShr(a.m, k) IN ZMk(TRUE, IF NShl(q, k) = a.m THEN q ELSE NAdd(q, <<1>>))

\* bitwise operations, through two's complement of n bits
RECURSIVE BitsOp(_, _, _, _)
BitAt(x, k) == (x \div Pow2(k)) % 2
BitsOp(o, x, y, k) ==
  IF k = 8 THEN 0 ELSE
  LET p == BitAt(x, k) q == BitAt(y, k)
      r == CASE o = "&" -> p * q [] o = "|" -> IF p + q > 0 THEN 1 ELSE 0 [] o = "^" -> (p + q) % 2
  IN r * Pow2(k) + BitsOp(o, x, y, k + 1)
ZBits(o, a, b, n) ==
  LET x == ZLow(a, n) y == ZLow(b, n)
      r == TrimHi([i \in 1..(n \div 8) |-> IF B(x, i) = 0 /\ B(y, i) = 0 THEN 0 ELSE BitsOp(o, B(x, i), B(y, i), 0)])
  IN ZWrap(ZMk(FALSE, r), n, TRUE)

\* value when it fits TLC's integers
ZSmall(a) == LET v == SmallVal(a.m) IN IF a.n THEN 0 - v ELSE v
ZIsSmall(a) == SmallVal(a.m) >= 0

------------------------------------------------------------------------------
(* nearest binary number with a mantissa of p bits to 0.d1d2... * 10^e, ties to even: bits (first is 1) and exponent *)

RECURSIVE NPow10(_, _)
NPow10(a, n) == IF n = 0 THEN a ELSE IF n >= 4 THEN NPow10(MulAdd(a, 10000, 0), n - 4) ELSE NPow10(MulAdd(a, 10, 0), n - 1)

RECURSIVE DecNat(_, _)
DecNat(ds, acc) == IF ds = <<>> THEN TrimHi(acc) ELSE DecNat(Tail(ds), MulAdd(acc, 10, ds[1]))

RECURSIVE Mantissa(_, _, _, _)
Mantissa(r, d, p, bits) ==
  IF p = 0 THEN <<bits, NCmp(r, d)>>
  ELSE LET ge == NCmp(r, d) >= 0 IN
    Mantissa(NShl(IF ge THEN NSub(r, d) ELSE r, 1), d, p - 1, Append(bits, IF ge THEN 1 ELSE 0))

RECURSIVE IncBits(_)
IncBits(b) == IF b = <<>> THEN <<>> ELSE
  LET n == Len(b) IN IF b[n] = 0 THEN [b EXCEPT ![n] = 1]
                     ELSE LET h == IncBits(SubSeq(b, 1, n - 1)) IN Append(h, 0)

NearestBin(ds, e, p) ==
  LET n0 == DecNat(ds, <<>>)
      k == e - Len(ds)
      num == TLCEval(IF k > 0 THEN TrimHi(NPow10(n0, k)) ELSE n0)
      den == TLCEval(IF k < 0 THEN TrimHi(NPow10(<<1>>, 0 - k)) ELSE <<1>>)
      s == BitLen(num) - BitLen(den)
      \* scale to 1 <= n1/d1 < 2
      n1 == IF s < 0 THEN NShl(num, 0 - s) ELSE num
      d1 == IF s > 0 THEN NShl(den, s) ELSE den
      low == NCmp(n1, d1) < 0
      m == Mantissa(IF low THEN NShl(n1, 1) ELSE n1, d1, p, <<>>)
      E == IF low THEN s - 1 ELSE s
      up == m[2] > 0 \/ (m[2] = 0 /\ m[1][p] = 1)
      b == IF up THEN IncBits(m[1]) ELSE m[1]
  IN IF up /\ b[1] = 0 THEN [b |-> [i \in 1..p |-> IF i = 1 THEN 1 ELSE 0], e |-> E + 1] ELSE [b |-> b, e |-> E]

SameReal(d1, e1, d2, e2, p) ==
  IF d1 = <<>> \/ d2 = <<>> THEN d1 = d2
  ELSE (d1 = d2 /\ e1 = e2) \/ NearestBin(d1, e1, p) = NearestBin(d2, e2, p)
=============================================================================
