------------------------------- MODULE TraceK -------------------------------
(***************************************************************************)
(* Recorded runs on variable-like macros (C18).  A constant is generated   *)
(* only for constant expressions; the type declared for it is the type C   *)
(* gives the expression, and the generated value is of that type.          *)
(***************************************************************************)
EXTENDS TraceC

KnownK(ev) == DOMAIN ev.cx.enums
RECURSIVE ConstX(_, _)
\* C11 6.6, with the names the context knows as constants
ConstX(K, x) ==
  CASE x.k = "lit" \/ x.k = "sizeof" -> TRUE
    [] x.k = "id" -> x.n \in K \/ Has(MaxTy, x.n)
    [] x.k = "par" \/ x.k = "cast" -> ConstX(K, x.e)
    [] x.k = "un" -> x.op \in {"+", "-", "!", "~"} /\ ConstX(K, x.e)
    [] x.k = "bin" -> ConstX(K, x.l) /\ ConstX(K, x.r)
    [] x.k = "cond" -> ConstX(K, x.c) /\ ConstX(K, x.a) /\ ConstX(K, x.b)
    [] OTHER -> FALSE
RECURSIVE HasStr(_)
HasStr(x) == CASE x.k = "lit" -> x.t.k = "str"
               [] x.k \in {"par", "cast", "un"} -> HasStr(x.e)
               [] x.k = "bin" -> HasStr(x.l) \/ HasStr(x.r)
               [] x.k = "cond" -> HasStr(x.c) \/ HasStr(x.a) \/ HasStr(x.b)
               [] OTHER -> FALSE

\* 0 or 1 in C, declared as bool
RECURSIVE IsTruth(_)
IsTruth(x) == CASE x.k = "par" -> IsTruth(x.e)
              [] x.k = "un" -> x.op = "!"
              [] x.k = "bin" -> x.op \in CmpOps \cup {"&&", "||"} \/ (x.op \in {"&", "|", "^"} /\ IsTruth(x.l) /\ IsTruth(x.r))
              [] x.k = "cond" -> IsTruth(x.a) /\ IsTruth(x.b)
              [] OTHER -> FALSE
RECURSIVE IsChrX(_)
IsChrX(x) == CASE x.k = "par" -> IsChrX(x.e) [] x.k = "un" -> x.op = "+" /\ IsChrX(x.e) [] x.k = "lit" -> x.t.k = "chr" [] OTHER -> FALSE

RECURSIVE SameT(_, _)
SameT(a, b) == IF a.k = "p" /\ b.k = "p" THEN SameT(Bare(a.t), Bare(b.t)) ELSE IF a.k = "b" /\ b.k = "b" THEN a.n = b.n \/ {a.n, b.n} = {"double", "ldouble"}
              ELSE Bare(a) = Bare(b)
\* a floating-point literal takes the type of the other operand, as an integer literal does
TypeOk(ev, t, x) ==
  LET G == GOf(ev, 64, {}) IN
  IF IsTruth(x) /\ t = TB("bool") THEN "ok"
  ELSE IF IsChrX(x) /\ t.k = "b" /\ t.n \in {"char", "uint", "wchar", "ushort"} THEN "ok"
  ELSE LET c == TyOf(G, x, Env0) IN
       IF c.k = "none" \/ c = NoTy THEN "open"
       ELSE IF SameT(c, t) THEN "ok"
       ELSE LET d == TyOf([G EXCEPT !.lw = @ + 100], x, Env0) IN
            IF d # NoTy /\ (SameT(d, t) \/ d = TB("?")) THEN "known literal-types"
            ELSE IF LimitX(x) THEN "known limits"
            ELSE IF CKind(G, x, Env0) = "mix" THEN "open"
            ELSE "bad the type is " \o ToString(c) \o " in C, " \o ToString(t) \o " in Rust"

JudgeK0(ev) ==
  LET r == ev.steps[2].r
      t == CTree(GOf(ev, 64, {}), Body(ev))
  IN CASE r.s \in {"panic", "crash"} -> "bad the library fails: " \o r.d
       [] r.s = "err" -> "rejected"
       [] r.perr # "" -> "bad not Rust: " \o r.perr
       [] ~t.ok -> "copen parse"
       [] ~t.isx -> "bad a constant for a statement"
       [] t.a.k = "un" /\ t.a.op = "&" /\ t.a.e.k = "id" /\ t.a.e.n \in KnownK(ev) -> "copen address of an enumerator"
       [] ~ConstX(KnownK(ev), t.a) -> "bad a constant for something that is not a constant expression"
       [] r.ty.k = "none" -> "ok"
       [] HasStr(t.a) -> "copen string"
       [] OTHER ->
            LET u == RTy(GOf(ev, 64, {}), r.ty) IN
            IF u.k = "none" THEN "ropen type"
            ELSE LET a == TypeOk(ev, u, t.a)
                     q == REv(GOf(ev, 64, {}), r.ast, S0(1))
                 IN IF Bad(a) THEN a
                    ELSE IF q.s = "ill" THEN (IF CKind(GOf(ev, 64, {}), t.a, Env0) = "mix" THEN "ropen implicit conversion" ELSE "bad does not type-check: " \o q.v.k)
                    ELSE IF q.s # "ok" THEN (IF a = "ok" THEN "ok" ELSE a)
                    ELSE IF IllAs(GOf(ev, 64, {}), q.v, u)
                         THEN (IF CKind(GOf(ev, 64, {}), t.a, Env0) = "mix" THEN "ropen implicit conversion" ELSE "bad the value is not of the declared type " \o r.tty)
                    ELSE IF q.v.k = "i" /\ q.v.t = "?" /\ u.k = "b" /\ u.n \in IntTys /\ ~FitsTy(64, q.v.v, u.n) THEN "bad the value does not fit the declared type " \o r.tty
                    ELSE a

JudgeK(ev) == LET j == JudgeK0(ev) IN IF StartsWith(j, "bad does not type-check") \/ StartsWith(j, "bad the value") THEN (IF LimitX(CTree(GOf(ev, 64, {}), Body(ev)).a) THEN "known limits" ELSE j) ELSE j
JudgedK ==
  LET ev == Trace[e]
      j == TLCEval(JudgeK(ev))
      w == CASE Bad(j) -> "bad" [] StartsWith(j, "known") -> "known" [] StartsWith(j, "copen") -> "copen" [] StartsWith(j, "ropen") -> "ropen" [] OTHER -> j
  IN /\ (IF Bad(j) THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j)
         ELSE IF StartsWith(j, "known") THEN PrintT("KNOWN " \o ToString(e) \o " " \o SubSeq(j, 7, Len(j)) \o " x")
         ELSE IF StartsWith(j, "ropen") THEN PrintT("OPEN " \o ToString(e) \o " " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o w)
=============================================================================
