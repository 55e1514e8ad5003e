-------------------------------- MODULE Lit --------------------------------
(***************************************************************************)
(* What literals denote, and what a generated Rust constant denotes: the   *)
(* value of the emitted expression, read off the syntax tree the Rust      *)
(* parser builds from the emitted text.                                    *)
(***************************************************************************)
EXTENDS Big

StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

RECURSIVE Peel(_)
\* look through blocks that consist of one expression, and through the CStr constructor
Peel(x) ==
  IF x.k = "block" /\ Len(x.s) = 1 /\ x.s[1].k = "expr" /\ ~x.s[1].semi THEN Peel(x.s[1].e)
  ELSE IF x.k = "call" /\ x.f.k = "path" /\ Len(x.a) = 1 /\
          EndsWith(x.f.s, "CStr::from_bytes_with_nul_unchecked") THEN Peel(x.a[1])
  ELSE IF x.k = "ref" THEN Peel(x.e)
  ELSE x

Bad0 == [ok |-> FALSE, v |-> Z0]

\* integer denoted by an emitted literal expression
RECURSIVE RustInt(_)
RustInt(x) ==
  CASE x.k = "int" -> [ok |-> TRUE, v |-> ZMk(x.neg, x.v)]
    [] x.k \in {"char", "byte"} -> [ok |-> TRUE, v |-> ZI(x.v)]
    [] x.k = "cast" -> RustInt(x.e)
    [] x.k = "un" /\ x.op = "-" -> LET r == RustInt(x.e) IN [ok |-> r.ok, v |-> ZNeg(r.v)]
    [] x.k = "block" -> IF Peel(x).k = "block" THEN Bad0 ELSE RustInt(Peel(x))
    [] OTHER -> Bad0

RustFloat(x) ==
  LET y == IF x.k = "cast" THEN x.e ELSE x IN
  IF y.k = "float" THEN [ok |-> TRUE, d |-> y.d, e |-> y.e] ELSE [ok |-> FALSE, d |-> <<>>, e |-> 0]

\* code units of an emitted string constant, the terminating zero included
RustUnits(x) ==
  LET y == Peel(x) IN
  IF y.k = "bstr" THEN [ok |-> TRUE, w |-> 8, u |-> y.v]
  ELSE IF y.k = "array" /\ \A i \in 1..Len(y.a) : RustInt(y.a[i]).ok /\ ~RustInt(y.a[i]).v.n
    THEN [ok |-> TRUE, w |-> 0, u |-> [i \in 1..Len(y.a) |-> ZSmall(RustInt(y.a[i]).v)]]
  ELSE [ok |-> FALSE, w |-> 0, u |-> <<>>]

------------------------------------------------------------------------------
(* a run of adjacent string literals *)

\* decode UTF-8, or <<0 - 1>> when malformed
RECURSIVE UnUtf8(_)
Cont(b, i) == IF i <= Len(b) /\ b[i] \in 128..191 THEN b[i] - 128 ELSE 0 - 100000000
UnUtf8(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET c == b[1]
           r == IF c < 128 THEN <<1, c>>
                ELSE IF c \in 194..223 THEN <<2, 64 * (c - 192) + Cont(b, 2)>>
                ELSE IF c \in 224..239 THEN <<3, 4096 * (c - 224) + 64 * Cont(b, 2) + Cont(b, 3)>>
                ELSE IF c \in 240..244 THEN <<4, 262144 * (c - 240) + 4096 * (IF Cont(b, 2) < 0 THEN 0 - 100000 ELSE Cont(b, 2)) + 64 * Cont(b, 3) + Cont(b, 4)>>
                ELSE <<1, 0 - 1>>
           ok == r[2] >= 0 /\ IsScalar(r[2]) /\ (r[1] = 3 => r[2] >= 2048) /\ (r[1] = 4 => r[2] >= 65536)
       IN IF ~ok THEN <<0 - 1>>
          ELSE LET t == UnUtf8(SubSeq(b, r[1] + 1, Len(b))) IN IF t = <<0 - 1>> THEN t ELSE <<r[2]>> \o t

IsStr(s) == StrLit(Codes(s)).ok

StrRun(ts) ==
  LET lits == [i \in 1..Len(ts) |-> StrLit(Codes(ts[i]))]
      ps == {lits[i].p : i \in 1..Len(ts)} \ {""}
      p == IF ps = {} THEN "" ELSE CHOOSE q \in ps : TRUE
      as == [i \in 1..Len(ts) |-> StrLitAs(Codes(ts[i]), p)]
      mixed == \E i, j \in 1..Len(ts) : lits[i].p # lits[j].p
      \* the library keeps an unprefixed literal as bytes: where one with numeric escapes above 127 takes on another prefix
      bytes(i) == lits[i].p = "" /\ p # "" /\ \E k \in 1..Len(lits[i].v) : lits[i].v[k] >= 128
  IN [p |-> p, v |-> Flat([i \in 1..Len(ts) |-> as[i].v]),
      dom |-> Cardinality(ps) <= 1 /\ \A i \in 1..Len(ts) : lits[i].ok /\ lits[i].dom /\ as[i].dom,
      rej |-> \/ \E i \in 1..Len(ts) : as[i].rej
              \/ mixed /\ \E i \in 1..Len(ts) : bytes(i),
      known |-> p \in {"u", "U", "L"} /\ \E i \in 1..Len(ts) : bytes(i)]

(* KNOWN FINDING bytes-as-text.  An unprefixed literal is stored as its UTF-8 bytes; when it takes on the prefix u, U or L,  *)
(* these bytes are decoded as UTF-8, also where they came from numeric escapes.  This is that behaviour, exactly.             *)
Widen(b, p) == LET d == UnUtf8(b) IN
  IF d = <<0 - 1>> THEN (IF p = "L" THEN b ELSE <<0 - 1>>) ELSE IF p = "u" THEN Flat([k \in 1..Len(d) |-> Utf16Of(d[k])]) ELSE d
Joined(x, y) == IF x = <<0 - 1>> \/ y = <<0 - 1>> THEN <<0 - 1>> ELSE x \o y
JoinStr(x, y) ==
  IF x.p = y.p THEN [p |-> x.p, v |-> Joined(x.v, y.v)]
  ELSE IF x.p = "" THEN [p |-> y.p, v |-> Joined(Widen(x.v, y.p), y.v)]
  ELSE [p |-> x.p, v |-> Joined(x.v, Widen(y.v, x.p))]
RECURSIVE AsBytes(_, _, _, _)
\* ts: literals and comments; acc: joined so far; g: the run being read
AsBytes(ts, acc, g, open) ==
  IF ts = <<>> THEN JoinStr(acc, g).v
  ELSE IF IsComment(ts[1]) THEN AsBytes(Tail(ts), acc, g, FALSE)
  ELSE LET l == StrLit(Codes(ts[1])) IN
    IF open /\ (l.p = "" \/ l.p = g.p) THEN AsBytes(Tail(ts), acc, JoinStr(g, l), TRUE)
    ELSE AsBytes(Tail(ts), JoinStr(acc, g), [p |-> l.p, v |-> l.v], TRUE)
BytesAsText(ts) == AsBytes(ts, [p |-> "", v |-> <<>>], [p |-> "", v |-> <<>>], FALSE)

ElemTy(p, wchar) == CASE p \in {"", "u8"} -> "u8" [] p = "u" -> "u16" [] p = "U" -> "u32" [] OTHER -> wchar

\* type generated for a string constant of n units (terminating zero included)
StrTyOk(t, p, n, wchar, units) ==
  /\ t.k = "ref" /\ ~t.mut
  /\ IF t.t.k = "arr" THEN t.t.n = ToString(n) /\ t.t.t.s = ElemTy(p, wchar)
     ELSE p = "" /\ t.t.k = "path" /\ EndsWith(t.t.s, "CStr")

TwoTo64 == NPow2(64)

FloatBits(x) == IF x = "f" THEN 24 ELSE 53
FloatIn(t) == t.d = <<>> \/ t.e \in (IF t.x = "f" THEN (0 - 36)..38 ELSE (0 - 306)..308)

(* verdict on r = result of generating the constant for a macro that expands to ts *)
JudgeLit(r, raw, wchar) ==
  LET ts == SelectSeq(raw, LAMBDA s : ~IsComment(s)) IN
  IF r.s \in {"panic", "crash"} THEN "bad:panic"
  ELSE IF ts # <<>> /\ \A i \in 1..Len(ts) : IsStr(ts[i]) THEN
    LET x == StrRun(ts) IN
    IF ~x.dom THEN "open"
    ELSE IF r.s # "ok" THEN (IF x.rej \/ (x.p = "L" /\ wchar = "wchar_t") THEN "rejected" ELSE "bad:string rejected")
    ELSE IF r.perr # "" THEN "bad:not Rust"
    ELSE LET u == RustUnits(r.ast) IN
      IF ~u.ok THEN "bad:no string constant"
      ELSE IF u.u # x.v \o <<0>> THEN
        (IF x.known /\ u.u = BytesAsText(raw) \o <<0>> THEN "known:bytes-as-text" ELSE "bad:different string")
      ELSE IF ~StrTyOk(r.ty, x.p, Len(u.u), wchar, u.u) THEN "bad:string type"
      ELSE IF r.ty.t.k # "arr" /\ \E i \in 1..Len(x.v) : x.v[i] = 0 THEN "bad:CStr with interior NUL"
      ELSE "ok"
  ELSE IF Len(ts) # 1 THEN "open"
  ELSE LET t == Tok(ts[1]) IN
    IF t.k = "bad" \/ (t.k = "cont" /\ t.dom) THEN (IF r.s = "ok" THEN "bad:accepted something that is no literal" ELSE "ok")
    ELSE IF t.k = "flt" THEN
      LET f == RustFloat(r.ast) IN
      IF ~FloatIn(t) THEN "open"
      ELSE IF r.s # "ok" THEN "bad:float rejected"
      ELSE IF r.perr # "" THEN "bad:not Rust"
      ELSE IF f.ok /\ SameReal(t.d, t.e, f.d, f.e, FloatBits(t.x)) THEN "ok" ELSE "bad:different float"
    ELSE IF t.k = "int" THEN
      LET v == RustInt(r.ast) IN
      IF r.s # "ok" THEN (IF NCmp(t.v, TwoTo64) >= 0 THEN "rejected" ELSE "bad:integer rejected")
      ELSE IF r.perr # "" THEN "bad:not Rust"
      ELSE IF v.ok /\ v.v = ZMk(FALSE, t.v) THEN "ok" ELSE "bad:different integer"
    ELSE IF t.k = "chr" /\ t.dom THEN
      LET v == RustInt(r.ast) IN
      IF r.s # "ok" THEN (IF t.p = "L" /\ wchar = "wchar_t" THEN "rejected" ELSE "bad:character rejected")
      ELSE IF r.perr # "" THEN "bad:not Rust"
      ELSE IF v.ok /\ ZWrap(v.v, IF t.p = "" THEN 8 ELSE 32, FALSE) = ZWrap(ZI(t.v[1]), IF t.p = "" THEN 8 ELSE 32, FALSE)
        THEN "ok" ELSE "bad:different character"
    ELSE "open"

(* verdict on r = result of expanding a macro whose replacement list is the one token s *)
JudgeTok(r, s) ==
  LET t == Tok(s) IN
  IF r.s \in {"panic", "crash"} THEN "bad:panic"
  ELSE IF t.k = "bad" THEN (IF r.s = "ok" THEN "bad:accepted an invalid token" ELSE "ok")
  ELSE IF t.k = "flt" THEN
    IF ~FloatIn(t) THEN "open"
    ELSE IF r.s # "ok" \/ Len(r.t) # 1 THEN "bad:rejected"
    ELSE LET o == r.t[1] IN
      IF o.k = "flt" /\ o.x = t.x /\ SameReal(t.d, t.e, o.d, o.e, FloatBits(t.x)) THEN "ok" ELSE "bad:different float"
  ELSE IF ~t.dom THEN "open"
  ELSE IF t.k = "int" /\ NCmp(t.v, TwoTo64) >= 0 /\ (IF r.s # "ok" THEN TRUE ELSE Len(r.t) = 1 /\ r.t[1].k = "cont" /\ r.t[1].v = s) THEN "rejected"
  ELSE IF r.s # "ok" THEN "bad:rejected"
  ELSE IF Len(r.t) = 1 /\ SameTok(r.t[1], s) THEN "ok" ELSE "bad:different token"
=============================================================================
