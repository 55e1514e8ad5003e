-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers as C and Rust compute with them: integers of a type, and        *)
(* binary floating point numbers m * 2^e with m odd, rounded to nearest.   *)
(***************************************************************************)
EXTENDS CSyn

\* ------------------------------------------------------------------ integer types; lw: width of long (64 or 32)
(* KNOWN FINDING literal-types.  The library computes integer literals as mathematical integers, without regard to their suffixes, *)
(* and operands narrower than int are not promoted.  lw + 100 is that reading: literals have the type "?", which fits everything. *)
Alt(lw) == lw > 100
IntTys == {"?", "bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "size_t", "ssize_t"}
FltTys == {"float", "double", "ldouble"}
Width(lw, n) == CASE n = "bool" -> 1 [] n \in {"char", "schar", "uchar"} -> 8 [] n \in {"short", "ushort"} -> 16 [] n \in {"int", "uint"} -> 32
                  [] n \in {"long", "ulong"} -> lw % 100 [] n = "?" -> 128 [] OTHER -> 64
Signed(n) == n \in {"?", "char", "schar", "short", "int", "long", "llong", "ssize_t"}
Rank(lw, n) == CASE n = "bool" -> 0 [] n \in {"char", "schar", "uchar"} -> 1 [] n \in {"short", "ushort"} -> 2 [] n \in {"int", "uint"} -> 3
                  [] n \in {"long", "ulong"} -> 4 [] n \in {"size_t", "ssize_t"} -> (IF lw % 100 = 64 THEN 4 ELSE 5) [] OTHER -> 5
Unsg(n) == CASE n = "int" -> "uint" [] n = "long" -> "ulong" [] n = "llong" -> "ullong" [] n = "ssize_t" -> "size_t" [] OTHER -> n
Promote(lw, n) == IF ~Alt(lw) /\ n \in {"bool", "char", "schar", "uchar", "short", "ushort"} THEN "int" ELSE n
FRank(n) == CASE n = "float" -> 1 [] n = "double" -> 2 [] OTHER -> 3
Prec(n) == IF n = "float" THEN 24 ELSE 53         \* long double is represented as double
Common(lw, m, n) ==
  IF m \in FltTys \/ n \in FltTys THEN
    (IF m \notin FltTys THEN n ELSE IF n \notin FltTys THEN m ELSE IF FRank(m) >= FRank(n) THEN m ELSE n)
  ELSE LET a == Promote(lw, m) b == Promote(lw, n) IN
    IF a = b THEN a
    ELSE IF a = "?" THEN b ELSE IF b = "?" THEN a
    ELSE IF Signed(a) = Signed(b) THEN (IF Rank(lw, a) >= Rank(lw, b) THEN a ELSE b)
    ELSE LET s == IF Signed(a) THEN a ELSE b
             u == IF Signed(a) THEN b ELSE a
         IN IF Rank(lw, u) >= Rank(lw, s) THEN u
            ELSE IF Width(lw, s) > Width(lw, u) THEN s ELSE Unsg(s)

FitsTy(lw, z, n) == IF n = "?" THEN TRUE ELSE IF n = "bool" THEN z = Z0 \/ z = ZI(1) ELSE ZFits(z, Width(lw, n), Signed(n))
WrapTy(lw, z, n) == IF n = "?" THEN z ELSE IF n = "bool" THEN (IF z = Z0 THEN Z0 ELSE ZI(1)) ELSE ZWrap(z, Width(lw, n), Signed(n))

\* ------------------------------------------------------------------ floating point: [m |-> integer, e |-> Int]
RECURSIVE TrailZ(_)
TrailZ(b) == IF b = <<>> THEN 0 ELSE IF b[1] = 0 THEN 8 + TrailZ(Tail(b))
             ELSE CHOOSE k \in 0..7 : b[1] % Pow2(k) = 0 /\ (b[1] \div Pow2(k)) % 2 = 1
FMk(z, e) == IF z = Z0 THEN [m |-> Z0, e |-> 0] ELSE LET t == TrailZ(z.m) IN [m |-> ZMk(z.n, NShr(z.m, t)), e |-> e + t]
\* round the magnitude b * 2^e (sticky: something non-zero lies below) to p bits, ties to even
RoundN(n, b, e, p, sticky) ==
  LET L == BitLen(b) d == L - p IN
  IF d <= 0 THEN FMk(ZMk(n, b), e)
  ELSE LET q == NShr(b, d)
           rest == NSub(b, NShl(q, d))
           half == NPow2(d - 1)
           c == NCmp(rest, half)
           odd == q # <<>> /\ q[1] % 2 = 1
           up == c > 0 \/ (c = 0 /\ (sticky \/ odd))
       IN FMk(ZMk(n, IF up THEN NAdd(q, <<1>>) ELSE q), e + d)
FRound(f, p) == RoundN(f.m.n, f.m.m, f.e, p, FALSE)
FInt(z, p) == RoundN(z.n, z.m, 0, p, FALSE)
FNeg(f) == [m |-> ZNeg(f.m), e |-> f.e]
Scale(f, e) == ZMk(f.m.n, NShl(f.m.m, f.e - e))            \* f.e >= e
Min2(a, b) == IF a < b THEN a ELSE b
FAdd(f, g, p) == LET e == Min2(f.e, g.e) IN FRound(FMk(ZAdd(Scale(f, e), Scale(g, e)), e), p)
FMul(f, g, p) == FRound(FMk(ZMul(f.m, g.m), f.e + g.e), p)
FDiv(f, g, p) ==                                          \* g # 0
  LET k == p + 3 + BitLen(g.m.m)
      qr == NDivMod(NShl(f.m.m, k), g.m.m)
  IN IF f.m = Z0 THEN f ELSE RoundN(f.m.n # g.m.n, NAdd(NShl(qr[1], 1), IF qr[2] = <<>> THEN <<>> ELSE <<1>>), f.e - g.e - k - 1, p, FALSE)
FCmp(f, g) == LET e == Min2(f.e, g.e) IN ZCmp(Scale(f, e), Scale(g, e))
FTrunc(f) == IF f.e >= 0 THEN Scale(f, 0) ELSE ZMk(f.m.n, NShr(f.m.m, 0 - f.e))
FSane(f) == f.e > 0 - 900 /\ f.e < 800
RECURSIVE BitsNat(_, _)
BitsNat(b, acc) == IF b = <<>> THEN acc ELSE BitsNat(Tail(b), NAdd(NShl(acc, 1), IF b[1] = 1 THEN <<1>> ELSE <<>>))
\* 0.d1d2.. * 10^e rounded to p bits
FDec(d, e, p) == IF d = <<>> THEN [m |-> Z0, e |-> 0]
                 ELSE LET r == NearestBin(d, e, p) IN FMk(ZMk(FALSE, BitsNat(r.b, <<>>)), r.e - (p - 1))

\* ------------------------------------------------------------------ values
VI(t, z) == [k |-> "i", t |-> t, v |-> z]
VF(t, f) == [k |-> "f", t |-> t, f |-> f]
VP(t, o, x) == [k |-> "p", t |-> t, o |-> o, x |-> x]     \* t: type pointed to
VV == [k |-> "v"]
VAgg(t, o) == [k |-> "g", t |-> t, o |-> o]               \* a structure, by the place that holds it
Bit(b) == VI("int", IF b THEN ZI(1) ELSE Z0)
Null == "null"
AbsObj == "@"

RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN "" ELSE LET q == NDivMod(b, <<10>>) IN Dec(q[1]) \o (IF q[2] = <<>> THEN "0" ELSE ToString(q[2][1]))
ShowZ(z) == (IF z.n THEN "-" ELSE "") \o (IF z.m = <<>> THEN "0" ELSE Dec(z.m))
\* what is observable of a value, without its type
Show(v) == CASE v.k = "i" -> ShowZ(v.v)
             [] v.k = "f" -> "f" \o ShowZ(v.f.m) \o "p" \o ToString(v.f.e)
             [] v.k = "p" -> "&" \o v.o \o "[" \o ToString(v.x) \o "]"
             [] v.k = "g" -> "agg " \o v.o
             [] v.k = "s" -> "string " \o ToString(v.u)
             [] OTHER -> v.k
Loc(o, x) == o \o "[" \o ToString(x) \o "]"

\* size of a type; types without a known size have one of their own
RECURSIVE SizeOf(_, _)
SizeOf(lw, t) == CASE t.k = "b" -> (IF t.n \in IntTys THEN (IF t.n = "bool" THEN 1 ELSE Width(lw, t.n) \div 8) ELSE IF t.n = "float" THEN 4 ELSE IF t.n = "double" THEN 8
                                    ELSE IF t.n = "ldouble" THEN 16 ELSE 1)
                   [] t.k = "p" -> (IF lw % 100 = 64 THEN 8 ELSE 4)
                   [] OTHER -> 24 + Len(t.n)
=============================================================================
