-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Lexical level of C: characters as code points, classification of        *)
(* preprocessing-token spellings, and the VALUE that a literal spelling    *)
(* denotes.  Values that do not fit TLC's 32-bit integers are little-endian *)
(* sequences of bytes without high zero bytes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

OrdF == [c \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
           31 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c)] @@ ("\n" :> 10) @@ ("\t" :> 9)

\* the characters outside ASCII that the generators use (UTF-16 code units, as TLC's strings have them)
CharF == JsonDeserialize("chars.json")

Ord(c) == IF c \in DOMAIN OrdF THEN OrdF[c] ELSE IF c \in DOMAIN CharF THEN CharF[c] ELSE 955

Units16(s) == [i \in 1..Len(s) |-> Ord(SubSeq(s, i, i))]
RECURSIVE Unpair(_)
Unpair(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF u[1] \in 55296..56319 /\ Len(u) > 1 /\ u[2] \in 56320..57343
       THEN <<65536 + 1024 * (u[1] - 55296) + (u[2] - 56320)>> \o Unpair(SubSeq(u, 3, Len(u)))
       ELSE <<u[1]>> \o Unpair(Tail(u))

\* the characters of a spelling
Codes(s) == TLCEval(LET u == Units16(s) IN IF \E i \in 1..Len(s) : u[i] \in 55296..57343 THEN Unpair(u) ELSE u)

Chr(n) == IF n = 10 THEN "\n" ELSE IF n = 9 THEN "\t" ELSE SubSeq(ASCII, n - 31, n - 31)

IsDigit(c) == c >= 48 /\ c <= 57
IsOct(c) == c >= 48 /\ c <= 55
IsBin(c) == c = 48 \/ c = 49
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c > 127
IsWordCh(c) == IsAlpha(c) \/ IsDigit(c)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87

InClass(P, c) == CASE P = "hex" -> IsHex(c) [] P = "bin" -> IsBin(c) [] P = "oct" -> IsOct(c) [] P = "dig" -> IsDigit(c)

All(P(_), s) == \A i \in 1..Len(s) : P(s[i])

IsIdent(cs) == Len(cs) > 0 /\ IsAlpha(cs[1]) /\ All(IsWordCh, cs)

Puncts == {"[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>",
           "<", ">", "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=",
           "-=", "<<=", ">>=", "&=", "^=", "|=", ",", "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:"}

IsComment(s) == Len(s) >= 2 /\ (SubSeq(s, 1, 2) = "/*" \/ SubSeq(s, 1, 2) = "//")
(* white space as the macro table sees it *)
RECURSIVE IsBlank(_)
IsBlank(s) == IF s = "" THEN TRUE ELSE
              (SubSeq(s, 1, 1) = " " \/ SubSeq(s, 1, 1) = "\t" \/ SubSeq(s, 1, 1) = "\n") /\ IsBlank(SubSeq(s, 2, Len(s)))
IsWhite(s) == IsComment(s) \/ IsBlank(s)
NoWhite(ts) == SelectSeq(ts, LAMBDA s : ~IsWhite(s))

------------------------------------------------------------------------------
(* big naturals: little-endian byte sequences *)

RECURSIVE TrimHi(_)
TrimHi(b) == IF b = <<>> THEN <<>> ELSE IF b[Len(b)] = 0 THEN TrimHi(SubSeq(b, 1, Len(b) - 1)) ELSE b

\* b * m + d, for small m, d
RECURSIVE MulAdd(_, _, _)
MulAdd(b, m, d) ==
  IF b = <<>> THEN (IF d = 0 THEN <<>> ELSE <<d % 256>> \o MulAdd(<<>>, m, d \div 256))
  ELSE LET x == b[1] * m + d IN <<x % 256>> \o MulAdd(Tail(b), m, x \div 256)

RECURSIVE FromDigits(_, _, _)
FromDigits(cs, base, acc) ==
  IF cs = <<>> THEN TrimHi(acc) ELSE FromDigits(Tail(cs), base, MulAdd(acc, base, DigitVal(cs[1])))

\* small value of a byte sequence, or -1 when it does not fit 31 bits
SmallVal(b) == IF Len(b) > 4 \/ (Len(b) = 4 /\ b[4] > 127) THEN 0 - 1 ELSE
  LET g(i) == IF i <= Len(b) THEN b[i] ELSE 0 IN g(1) + 256 * (g(2) + 256 * (g(3) + 256 * g(4)))

RECURSIVE BytesOf(_)
BytesOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BytesOf(n \div 256)

------------------------------------------------------------------------------
(* integer literals *)

IntSuffixes ==
  LET U == {<<117>>, <<85>>}
      L == {<<108>>, <<76>>}
      LL == {<<108, 108>>, <<76, 76>>}
      Z == {<<122>>, <<90>>}
      Both(A, B) == {a \o b : a \in A, b \in B} \cup {b \o a : a \in A, b \in B}
  IN [none |-> {<<>>}, UInt |-> U, Long |-> L, LongLong |-> LL, SSizeT |-> Z,
      ULong |-> Both(U, L), ULongLong |-> Both(U, LL), SizeT |-> Both(U, Z)]

IntSuffixName(cs) ==
  IF \E n \in DOMAIN IntSuffixes : cs \in IntSuffixes[n]
  THEN CHOOSE n \in DOMAIN IntSuffixes : cs \in IntSuffixes[n]
  ELSE "bad"

\* longest prefix of cs (from i) satisfying P: index just past it
RECURSIVE Span(_, _, _)
Span(P, cs, i) == IF i <= Len(cs) /\ InClass(P, cs[i]) THEN Span(P, cs, i + 1) ELSE i

Sub(cs, i, j) == SubSeq(cs, i, j)

\* [ok, v (bytes), x (suffix name)]
IntLit(cs) ==
  LET bad == [ok |-> FALSE, v |-> <<>>, x |-> ""]
      mk(from, j, base) ==
        LET sx == IntSuffixName(Sub(cs, j, Len(cs)))
        IN IF j = from \/ sx = "bad" THEN bad
           ELSE [ok |-> TRUE, v |-> FromDigits(Sub(cs, from, j - 1), base, <<>>), x |-> IF sx = "none" THEN "" ELSE sx]
  IN IF cs = <<>> \/ ~IsDigit(cs[1]) THEN bad
     ELSE IF Len(cs) > 2 /\ cs[1] = 48 /\ Lower(cs[2]) = 120 THEN mk(3, Span("hex", cs, 3), 16)
     ELSE IF Len(cs) > 2 /\ cs[1] = 48 /\ Lower(cs[2]) = 98 THEN mk(3, Span("bin", cs, 3), 2)
     ELSE IF cs[1] = 48 THEN mk(1, Span("oct", cs, 1), 8)
     ELSE mk(1, Span("dig", cs, 1), 10)

------------------------------------------------------------------------------
(* decimal floating literals: significant decimal digits and decimal exponent, value = 0.d1d2d3... * 10^e *)

RECURSIVE DropLead(_, _)
DropLead(ds, e) == IF ds # <<>> /\ ds[1] = 0 THEN DropLead(Tail(ds), e - 1) ELSE <<ds, e>>
RECURSIVE DropTrail(_)
DropTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN DropTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

RECURSIVE SmallDec(_, _)
SmallDec(cs, acc) == IF cs = <<>> THEN acc ELSE SmallDec(Tail(cs), acc * 10 + DigitVal(cs[1]))

FloatLit(cs) ==
  LET bad == [ok |-> FALSE, d |-> <<>>, e |-> 0, x |-> ""]
      i1 == Span("dig", cs, 1)                                \* past the integer part
      dot == i1 <= Len(cs) /\ cs[i1] = 46
      i2 == IF dot THEN Span("dig", cs, i1 + 1) ELSE i1       \* past the fraction
      nd == (i1 - 1) + (IF dot THEN i2 - i1 - 1 ELSE 0)
      exp == i2 <= Len(cs) /\ Lower(cs[i2]) = 101
      sgn == exp /\ i2 + 1 <= Len(cs) /\ cs[i2 + 1] \in {43, 45}
      i3 == IF exp THEN (IF sgn THEN i2 + 2 ELSE i2 + 1) ELSE i2
      i4 == IF exp THEN Span("dig", cs, i3) ELSE i2
      sx == Sub(cs, i4, Len(cs))
      ok == nd > 0 /\ (dot \/ exp) /\ (exp => i4 > i3) /\
            (sx = <<>> \/ (Len(sx) = 1 /\ Lower(sx[1]) \in {102, 108}))
  IN IF ~ok THEN bad ELSE
     LET ev == IF exp /\ i4 - i3 > 4 THEN 99999               \* far outside every range
               ELSE IF exp THEN (IF sgn /\ cs[i2 + 1] = 45 THEN 0 - SmallDec(Sub(cs, i3, i4 - 1), 0)
                            ELSE SmallDec(Sub(cs, i3, i4 - 1), 0)) ELSE 0
         all == [k \in 1..nd |-> DigitVal(IF k <= i1 - 1 THEN cs[k] ELSE cs[k + 1])]
         dl == DropLead(all, (i1 - 1) + ev)
         ds == DropTrail(dl[1])
     IN [ok |-> TRUE, d |-> ds, e |-> IF ds = <<>> THEN 0 ELSE dl[2],
         x |-> IF sx = <<>> THEN "" ELSE IF Lower(sx[1]) = 102 THEN "f" ELSE "l"]

------------------------------------------------------------------------------
(* character and string literals *)

SimpleEsc == (97 :> 7) @@ (98 :> 8) @@ (101 :> 27) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@
             (118 :> 11) @@ (92 :> 92) @@ (39 :> 39) @@ (34 :> 34) @@ (63 :> 63)

RECURSIVE NumVal(_, _, _)
NumVal(cs, base, acc) ==
  IF cs = <<>> THEN acc
  ELSE IF acc > 100000000 THEN 100000001                 \* too large for every domain below
  ELSE LET r == acc * base + DigitVal(cs[1]) IN NumVal(Tail(cs), base, r)

RECURSIVE SpanMax(_, _, _, _)
SpanMax(P, cs, i, n) == IF n > 0 /\ i <= Len(cs) /\ InClass(P, cs[i]) THEN SpanMax(P, cs, i + 1, n - 1) ELSE i

(* one escape starting at cs[i] = backslash: [ok, v, n (next index), u (is a universal character name)] *)
Escape(cs, i) ==
  LET bad == [ok |-> FALSE, v |-> 0, n |-> i, u |-> FALSE] IN
  IF i + 1 > Len(cs) THEN bad ELSE
  LET c == cs[i + 1] IN
  IF c \in DOMAIN SimpleEsc THEN [ok |-> TRUE, v |-> SimpleEsc[c], n |-> i + 2, u |-> FALSE]
  ELSE IF IsOct(c) THEN
    LET j == SpanMax("oct", cs, i + 1, 3) IN [ok |-> TRUE, v |-> NumVal(Sub(cs, i + 1, j - 1), 8, 0), n |-> j, u |-> FALSE]
  ELSE IF c = 120 THEN
    LET j == Span("hex", cs, i + 2)
        v == NumVal(Sub(cs, i + 2, j - 1), 16, 0)
    IN IF j = i + 2 THEN bad ELSE [ok |-> TRUE, v |-> v, n |-> j, u |-> FALSE]
  ELSE IF c \in {117, 85} THEN
    LET w == IF c = 117 THEN 4 ELSE 8
        j == SpanMax("hex", cs, i + 2, w)
        v == NumVal(Sub(cs, i + 2, j - 1), 16, 0)
    IN IF j # i + 2 + w THEN bad ELSE [ok |-> TRUE, v |-> v, n |-> j, u |-> TRUE]
  ELSE bad

(* content between quotes -> [ok, u : sequence of [v, u]] where u says "this is a character (to be encoded)", *)
(* as opposed to a numeric code unit.                                                                        *)
RECURSIVE Units(_, _, _, _)
Units(cs, i, q, acc) ==
  IF i > Len(cs) THEN [ok |-> TRUE, u |-> acc]
  ELSE IF cs[i] = 92 THEN
    LET e == Escape(cs, i) IN
    IF ~e.ok THEN [ok |-> FALSE, u |-> acc] ELSE Units(cs, e.n, q, Append(acc, [v |-> e.v, u |-> e.u]))
  ELSE IF cs[i] = q \/ cs[i] = 10 THEN [ok |-> FALSE, u |-> acc]
  ELSE Units(cs, i + 1, q, Append(acc, [v |-> cs[i], u |-> TRUE]))

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf16Of(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>

IsScalar(c) == c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

Enc(p, u) ==
  CASE p \in {"", "u8"} -> IF u.u THEN Utf8Of(u.v) ELSE <<u.v>>
    [] p = "u" -> IF u.u THEN Utf16Of(u.v) ELSE <<u.v>>
    [] OTHER -> <<u.v>>

UnitOk(p, u) ==
  IF u.u THEN IsScalar(u.v)
  ELSE CASE p \in {"", "u8"} -> u.v <= 255 [] p = "u" -> u.v <= 65535 [] OTHER -> u.v <= 100000000

\* units C allows that the library may refuse: it keeps u8, u and U strings as Unicode text
UnitRej(p, u) ==
  ~u.u /\ CASE p = "u8" -> u.v >= 128 [] p = "u" -> u.v \in 55296..57343 [] p = "U" -> ~IsScalar(u.v) [] OTHER -> FALSE

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Prefixes == <<<<>>, <<117, 56>>, <<117>>, <<85>>, <<76>>>>
PrefixName == <<"", "u8", "u", "U", "L">>

\* position of the opening quote q with a legal prefix before it, or 0
QuotePos(cs, q) ==
  IF Len(cs) >= 2 /\ cs[Len(cs)] = q /\
     \E k \in 1..5 : LET n == Len(Prefixes[k]) IN Len(cs) >= n + 2 /\ Sub(cs, 1, n) = Prefixes[k] /\ cs[n + 1] = q
  THEN (CHOOSE n \in 1..3 : cs[n] = q /\ \E k \in 1..5 : Len(Prefixes[k]) = n - 1 /\ Sub(cs, 1, n - 1) = Prefixes[k])
  ELSE 0

PrefixOf(cs, pos) == PrefixName[CHOOSE k \in 1..5 : Prefixes[k] = Sub(cs, 1, pos - 1)]

(* string literal: [ok, p, v (code units without the terminating NUL), dom (inside the domain C defines), rej (may be refused)] *)
(* force: the prefix of the whole concatenation it is part of, or "" *)
StrLitAs(cs, force) ==
  LET pos == QuotePos(cs, 34)
      bad == [ok |-> FALSE, p |-> "", v |-> <<>>, dom |-> TRUE, rej |-> FALSE]
  IN IF pos = 0 THEN bad ELSE
     LET own == PrefixOf(cs, pos)
         p == IF force = "" THEN own ELSE force
         r == Units(Sub(cs, pos + 1, Len(cs) - 1), 1, 34, <<>>)
     IN IF ~r.ok THEN bad
        ELSE [ok |-> TRUE, p |-> p, v |-> Flat([i \in 1..Len(r.u) |-> Enc(p, r.u[i])]),
              dom |-> \A i \in 1..Len(r.u) : UnitOk(p, r.u[i]),
              rej |-> \E i \in 1..Len(r.u) : UnitRej(p, r.u[i])]
StrLit(cs) == StrLitAs(cs, "")

(* character constant (exactly one element) *)
ChrLit(cs) ==
  LET pos == QuotePos(cs, 39)
      bad == [ok |-> FALSE, p |-> "", v |-> 0, dom |-> TRUE]
  IN IF pos = 0 THEN bad ELSE
     LET p == PrefixOf(cs, pos)
         r == Units(Sub(cs, pos + 1, Len(cs) - 1), 1, 39, <<>>)
     IN IF ~r.ok \/ Len(r.u) # 1 THEN bad
        ELSE LET u == r.u[1] IN
          [ok |-> TRUE, p |-> p, v |-> u.v,
           dom |-> UnitOk(p, u) /\ CASE p = "" -> (IF u.u THEN u.v <= 127 ELSE u.v <= 255)
                                      [] p = "u8" -> u.v <= 127
                                      [] p = "u" -> u.v <= 65535
                                      [] OTHER -> u.v <= 100000000]

------------------------------------------------------------------------------
(* The token a spelling denotes, in the vocabulary in which the harness reports observed tokens. *)
(* k = "bad": not a token the library can represent; dom = FALSE: C leaves the value open.        *)

Tok(s) ==
  IF s \in Puncts THEN [k |-> "p", v |-> s, dom |-> TRUE]
  ELSE LET cs == Codes(s) IN
  IF IsIdent(cs) THEN [k |-> "id", v |-> s, dom |-> TRUE]
  ELSE IF cs # <<>> /\ (IsDigit(cs[1]) \/ cs[1] = 46) THEN
    LET i == IntLit(cs) f == FloatLit(cs) IN
    IF i.ok THEN [k |-> "int", v |-> i.v, x |-> i.x, dom |-> TRUE]
    ELSE IF f.ok THEN [k |-> "flt", d |-> f.d, e |-> f.e, x |-> f.x,
                       dom |-> Len(f.d) <= (IF f.x = "f" THEN 6 ELSE 15) /\
                               f.e \in (IF f.x = "f" THEN (0 - 36)..38 ELSE (0 - 306)..308)]
    ELSE IF All(IsWordCh, cs) THEN [k |-> "cont", v |-> s, dom |-> cs[1] # 48]
    ELSE [k |-> "bad", v |-> s, dom |-> TRUE]
  ELSE LET st == StrLit(cs) ch == ChrLit(cs) IN
    IF st.ok THEN [k |-> "str", p |-> st.p, v |-> st.v, dom |-> st.dom /\ ~st.rej]
    ELSE IF ch.ok THEN [k |-> "chr", p |-> ch.p, v |-> <<ch.v>>, dom |-> ch.dom]
    ELSE [k |-> "bad", v |-> s, dom |-> TRUE]

\* does observed token o (a harness record) equal what spelling s denotes?
SameTok(o, s) ==
  LET t == Tok(s) IN
  /\ o.k = t.k
  /\ CASE t.k \in {"p", "id", "cont"} -> o.v = t.v
       [] t.k = "int" -> o.v = t.v /\ o.x = t.x /\ ~o.neg
       [] t.k = "flt" -> o.x = t.x /\ (t.dom => (o.d = t.d /\ o.e = t.e))
       [] t.k \in {"str", "chr"} -> o.p = t.p /\ (t.dom => o.v = t.v)
       [] OTHER -> FALSE
=============================================================================
