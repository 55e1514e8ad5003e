-------------------------------- MODULE CSem --------------------------------
(***************************************************************************)
(* What a C expression or statement does: its value, the objects it reads  *)
(* and writes, and its observable effects (calls and volatile accesses) in *)
(* order.  Whatever C leaves undefined, or leaves to the implementation in *)
(* a way the library cannot know, has the outcome "open".                  *)
(*                                                                         *)
(* G: [ty, alt, params: as for CSyn; lw: width of long; vars: name ->      *)
(*  [t, o]; fields: "S.f" -> type; fns: name -> [ps, r]; consts: name ->   *)
(*  value]                                                                 *)
(* S: [st: location -> value; env: name -> [t, o]; tr: effects; rd, wr:    *)
(*  locations read and written; bag: the order of the effects is open;     *)
(*  n: objects made; f: steps left]                                        *)
(***************************************************************************)
EXTENDS Num, Asm

Out(v, S) == [s |-> "ok", v |-> v, S |-> S]
OpenAt(S) == [s |-> "open", v |-> VV, S |-> S]
OpenWhy(S, w) == [s |-> "open", v |-> [k |-> w], S |-> S]

Has(f, x) == x \in DOMAIN f
AbsVal == 85

\* type of an integer literal
LitTy(lw, t, s) ==
  LET dec == SubSeq(s, 1, 1) # "0"
      cand == CASE t.x = "" -> (IF dec THEN <<"int", "long", "llong">> ELSE <<"int", "uint", "long", "ulong", "llong", "ullong">>)
                [] t.x = "UInt" -> <<"uint", "ulong", "ullong">>
                [] t.x = "Long" -> (IF dec THEN <<"long", "llong">> ELSE <<"long", "ulong", "llong", "ullong">>)
                [] t.x = "ULong" -> <<"ulong", "ullong">>
                [] t.x = "LongLong" -> (IF dec THEN <<"llong">> ELSE <<"llong", "ullong">>)
                [] t.x = "ULongLong" -> <<"ullong">>
                [] t.x = "SizeT" -> <<"size_t">>
                [] OTHER -> <<"ssize_t">>
      ok == {i \in 1..Len(cand) : FitsTy(lw, ZMk(FALSE, t.v), cand[i])}
  IN IF Alt(lw) THEN "?" ELSE IF ok = {} THEN "" ELSE cand[CHOOSE i \in ok : \A j \in ok : i <= j]

\* names the compiler predefines
MaxTy == ("__SCHAR_MAX__" :> "schar") @@ ("__SHRT_MAX__" :> "short") @@ ("__INT_MAX__" :> "int") @@ ("__LONG_MAX__" :> "long") @@ ("__LONG_LONG_MAX__" :> "llong")
HasConst(G, n) == Has(G.consts, n) \/ Has(MaxTy, n)
ConstOf(G, n) == IF Has(G.consts, n) THEN G.consts[n] ELSE VI(MaxTy[n], ZMk(FALSE, NSub(NPow2(Width(G.lw, MaxTy[n]) - 1), <<1>>)))

NoTy == TB("")
IntT == TB("int")
Bare(t) == [t EXCEPT !.c = FALSE, !.v = FALSE]
RECURSIVE Resolve(_, _)
RECURSIVE TyOf(_, _, _)
\* static type of an expression, NoTy where it is not known
TyOf(G, x, env) ==
  LET T(y) == TyOf(G, y, env)
      Arith(a, b) == IF a.k = "b" /\ b.k = "b" /\ a.n \in IntTys \cup FltTys /\ b.n \in IntTys \cup FltTys THEN TB(Common(G.lw, a.n, b.n))
                     ELSE IF a.k = "p" THEN a ELSE IF b.k = "p" THEN b ELSE NoTy
  IN CASE x.k = "par" -> T(x.e)
       [] x.k = "lit" -> (CASE x.t.k = "int" -> TB(LitTy(G.lw, x.t, x.s))
                            [] x.t.k = "flt" -> TB(IF x.t.x = "f" THEN "float" ELSE IF x.t.x = "l" THEN "ldouble" ELSE "double")
                            [] x.t.k = "chr" /\ x.t.p = "" -> IF Alt(G.lw) THEN TB("char") ELSE IntT
                            [] OTHER -> NoTy)
       [] x.k = "id" -> IF Has(env, x.n) THEN env[x.n].t ELSE IF HasConst(G, x.n) THEN TB(ConstOf(G, x.n).t) ELSE NoTy
       [] x.k = "un" -> (CASE x.op = "!" -> IntT
                           [] x.op \in {"+", "-", "~"} -> (LET t == T(x.e) IN IF t.k = "b" /\ t.n \in IntTys THEN TB(Promote(G.lw, t.n)) ELSE t)
                           [] x.op = "*" -> (LET t == T(x.e) IN IF t.k = "p" THEN t.t ELSE NoTy)
                           [] x.op = "&" -> (LET t == T(x.e) IN IF t = NoTy THEN t ELSE TP(t))
                           [] OTHER -> T(x.e))
       [] x.k = "post" -> T(x.e)
       [] x.k = "idx" -> (LET t == T(x.a) IN IF t.k = "p" THEN t.t ELSE NoTy)
       [] x.k = "fld" -> (LET t == T(x.e)
                              s == IF x.arrow THEN (IF t.k = "p" THEN t.t ELSE NoTy) ELSE t
                          IN IF s.k \in {"n", "t"} /\ Has(G.fields, s.n \o "." \o x.f) THEN Qual(G.fields[s.n \o "." \o x.f], s.c, s.v) ELSE NoTy)
       [] x.k = "bin" -> (IF x.op \in {"<", ">", "<=", ">=", "==", "!=", "&&", "||"} THEN IntT
                          ELSE IF x.op \in {"<<", ">>"} THEN (LET t == T(x.l) IN IF t.k = "b" /\ t.n \in IntTys THEN TB(Promote(G.lw, t.n)) ELSE NoTy)
                          ELSE LET a == T(x.l) b == T(x.r) IN IF x.op = "-" /\ a.k = "p" /\ b.k = "p" THEN TB("ssize_t") ELSE Arith(a, b))
       [] x.k = "cond" -> (LET a == T(x.a) b == T(x.b) IN IF a = b THEN (IF a.k = "b" /\ a.n \in IntTys THEN TB(Promote(G.lw, a.n)) ELSE a)
                           ELSE IF a.k = "p" /\ b.k = "p" THEN (IF Bare(a.t) = Bare(b.t) THEN TP(Qual(a.t, b.t.c, b.t.v)) ELSE NoTy) ELSE Arith(a, b))
       [] x.k = "asg" -> T(x.l)
       [] x.k = "comma" -> T(x.r)
       [] x.k = "cast" -> Resolve(G, x.t)
       [] x.k = "sizeof" -> TB("size_t")
       [] x.k = "call" -> (LET f == Strip(x.f) IN IF f.k = "id" /\ Has(G.fns, f.n) THEN G.fns[f.n].r ELSE IntT)
       [] OTHER -> NoTy

\* a type with its typedef names replaced by what they stand for
Resolve(G, t) == CASE t.k = "n" /\ Has(G.named, t.n) -> Qual(G.named[t.n], t.c, t.v)
                   [] t.k = "p" -> [t EXCEPT !.t = Resolve(G, @)]
                   [] OTHER -> t

\* conversion of a value to a type: <<value>>, or <<>> when open
Conv(G, v, t) ==
  CASE t.k = "b" /\ t.n = "void" -> <<VV>>
    [] t.k = "b" /\ t.n \in IntTys /\ v.k = "i" -> <<VI(t.n, WrapTy(G.lw, v.v, t.n))>>
    [] t.k = "b" /\ t.n = "bool" /\ v.k = "f" -> <<VI("bool", IF v.f.m = Z0 THEN Z0 ELSE ZI(1))>>
    [] t.k = "b" /\ t.n = "bool" /\ v.k = "p" -> <<VI("bool", IF v.o = Null THEN Z0 ELSE ZI(1))>>
    [] t.k = "b" /\ t.n \in IntTys /\ v.k = "f" -> LET z == FTrunc(v.f) IN IF FitsTy(G.lw, z, t.n) THEN <<VI(t.n, z)>> ELSE <<>>
    [] t.k = "b" /\ t.n \in FltTys /\ v.k = "i" -> <<VF(t.n, FInt(v.v, Prec(t.n)))>>
    [] t.k = "b" /\ t.n \in FltTys /\ v.k = "f" -> <<VF(t.n, FRound(v.f, Prec(t.n)))>>
    [] t.k = "p" /\ v.k = "p" -> <<VP(t.t, v.o, v.x)>>
    [] t.k = "p" /\ v.k = "i" -> IF v.v = Z0 THEN <<VP(t.t, Null, 0)>> ELSE IF ZIsSmall(v.v) /\ ~v.v.n THEN <<VP(t.t, AbsObj, ZSmall(v.v))>> ELSE <<>>
    [] t.k \in {"n", "t"} /\ v.k = "g" -> <<v>>
    [] t.k = "p" /\ v.k = "s" -> <<v>>
    [] OTHER -> <<>>

\* a scalar as a truth value: <<b>> or <<>>
Truth(v) == CASE v.k = "i" -> <<v.v # Z0>> [] v.k = "f" -> <<v.f.m # Z0>> [] v.k = "p" -> <<v.o # Null>> [] OTHER -> <<>>

\* arithmetic on two values of one integer type: <<z>> or <<>>
IntOp(G, op, t, a, b) ==
  LET n == Width(G.lw, t)
      res(z) == IF Signed(t) THEN (IF FitsTy(G.lw, z, t) THEN <<z>> ELSE <<>>) ELSE <<WrapTy(G.lw, z, t)>>
  IN CASE op = "+" -> res(ZAdd(a, b))
       [] op = "-" -> res(ZSub(a, b))
       [] op = "*" -> res(ZMul(a, b))
       [] op = "/" -> IF b = Z0 THEN <<>> ELSE res(ZDiv(a, b))
       [] op = "%" -> IF b = Z0 THEN <<>> ELSE IF res(ZDiv(a, b)) = <<>> THEN <<>> ELSE res(ZRem(a, b))
       [] op \in {"&", "|", "^"} -> <<WrapTy(G.lw, ZBits(op, a, b, n), t)>>
       [] OTHER -> <<>>
ShiftOp(G, op, t, a, b) ==
  LET n == Width(G.lw, t) IN
  IF b.n \/ ~ZIsSmall(b) \/ ZSmall(b) >= n THEN <<>>
  ELSE IF op = ">>" THEN <<ZFloorShr(a, ZSmall(b))>>
  ELSE IF ~Signed(t) THEN <<WrapTy(G.lw, ZMul(a, ZMk(FALSE, NPow2(ZSmall(b)))), t)>>
  ELSE LET z == ZMul(a, ZMk(FALSE, NPow2(ZSmall(b)))) IN IF a.n \/ ~FitsTy(G.lw, z, t) THEN <<>> ELSE <<z>>
CmpHolds(op, c) == CASE op = "<" -> c < 0 [] op = ">" -> c > 0 [] op = "<=" -> c <= 0 [] op = ">=" -> c >= 0 [] op = "==" -> c = 0 [] OTHER -> c # 0
CmpOps == {"<", ">", "<=", ">=", "==", "!="}

\* a binary operator on values: <<v>> or <<>>
BinOp(G, op, a, b) ==
  CASE op \in {"<<", ">>"} ->
         (IF a.k = "i" /\ b.k = "i" THEN LET t == Promote(G.lw, a.t) r == ShiftOp(G, op, t, a.v, b.v) IN IF r = <<>> THEN <<>> ELSE <<VI(t, r[1])>> ELSE <<>>)
    [] a.k = "i" /\ b.k = "i" ->
         (LET t == Common(G.lw, a.t, b.t)
              x == WrapTy(G.lw, a.v, t)  y == WrapTy(G.lw, b.v, t)
          IN IF op \in CmpOps THEN <<Bit(CmpHolds(op, ZCmp(x, y)))>>
             ELSE LET r == IntOp(G, op, t, x, y) IN IF r = <<>> THEN <<>> ELSE <<VI(t, r[1])>>)
    [] a.k \in {"i", "f"} /\ b.k \in {"i", "f"} ->
         (LET t == Common(G.lw, a.t, b.t)
              p == Prec(t)
              x == IF a.k = "i" THEN FInt(a.v, p) ELSE FRound(a.f, p)
              y == IF b.k = "i" THEN FInt(b.v, p) ELSE FRound(b.f, p)
              res(f) == IF FSane(f) THEN <<VF(t, f)>> ELSE <<>>
          IN CASE op \in CmpOps -> <<Bit(CmpHolds(op, FCmp(x, y)))>>
               [] op = "+" -> res(FAdd(x, y, p))
               [] op = "-" -> res(FAdd(x, FNeg(y), p))
               [] op = "*" -> res(FMul(x, y, p))
               [] op = "/" -> IF y.m = Z0 THEN <<>> ELSE res(FDiv(x, y, p))
               [] OTHER -> <<>>)
    [] a.k = "p" /\ b.k = "i" /\ op \in {"+", "-"} /\ ZIsSmall(b.v) -> <<VP(a.t, a.o, IF op = "+" THEN a.x + ZSmall(b.v) ELSE a.x - ZSmall(b.v))>>
    [] a.k = "i" /\ b.k = "p" /\ op = "+" /\ ZIsSmall(a.v) -> <<VP(b.t, b.o, b.x + ZSmall(a.v))>>
    [] a.k = "p" /\ b.k = "p" /\ op \in {"==", "!="} -> <<Bit(CmpHolds(op, IF a.o = b.o /\ a.x = b.x THEN 0 ELSE 1))>>
    [] a.k = "p" /\ b.k = "p" /\ a.o = b.o /\ op \in CmpOps -> <<Bit(CmpHolds(op, a.x - b.x))>>
    [] a.k = "p" /\ b.k = "p" /\ a.o = b.o /\ op = "-" -> <<VI("ssize_t", ZI(a.x - b.x))>>
    [] a.k = "p" /\ b.k = "i" /\ b.v = Z0 /\ op \in {"==", "!="} -> <<Bit(CmpHolds(op, IF a.o = Null THEN 0 ELSE 1))>>
    [] OTHER -> <<>>

------------------------------------------------------------------------------
(* the store *)
\* the object a place denotes: [o, x, t]
ReadAt(G, l, S) ==
  LET loc == Loc(l.o, l.x) IN
  IF l.o = Null THEN OpenAt(S)
  ELSE IF l.t.k = "r" THEN Out(VP(l.t.t, l.o \o "#", 0), S)                                     \* an array decays
  ELSE IF l.t.k \in {"n", "t"} THEN Out(VAgg(l.t, loc), S)
  ELSE LET S1 == [S EXCEPT !.rd = @ \cup {loc}, !.tr = IF l.t.v THEN @ \o <<"volatile read of " \o loc>> ELSE @] IN
       IF Has(S.st, loc) THEN
         LET c == Conv(G, S.st[loc], l.t) IN IF c = <<>> THEN OpenAt(S) ELSE Out(c[1], S1)
       ELSE IF l.o = AbsObj THEN LET c == Conv(G, VI("int", ZI(AbsVal + (l.x % 3))), l.t) IN IF c = <<>> THEN OpenAt(S) ELSE Out(c[1], S1)
       ELSE OpenWhy(S, "no such object " \o loc)
Put(f, x, v) == (x :> v) @@ f
WriteAt(G, l, v, S) ==
  LET loc == Loc(l.o, l.x) c == Conv(G, v, l.t) IN
  IF l.o = Null \/ l.t.k \in {"n", "t", "r"} \/ c = <<>> \/ l.t.c THEN OpenAt(S)
  ELSE IF ~Has(S.st, loc) /\ l.o # AbsObj THEN OpenWhy(S, "no such object " \o loc)
  ELSE Out(c[1], [S EXCEPT !.st = Put(@, loc, c[1]), !.wr = @ \cup {loc},
                           !.tr = IF l.t.v THEN @ \o <<"volatile write of " \o loc \o " := " \o Show(c[1])>> ELSE @])

\* operands evaluated in no particular order: conflicting accesses are undefined, two effects come in either order
Fresh(S) == [S EXCEPT !.rd = {}, !.wr = {}, !.tr = <<>>]
Unseq(S, P, Q) ==
  LET clash == P.wr \cap (Q.rd \cup Q.wr) # {} \/ Q.wr \cap P.rd # {} IN
  [ok |-> ~clash, S |-> [Q EXCEPT !.rd = S.rd \cup P.rd \cup Q.rd, !.wr = S.wr \cup P.wr \cup Q.wr, !.tr = S.tr \o P.tr \o Q.tr,
                                  !.bag = @ \/ (P.tr # <<>> /\ Q.tr # <<>>)]]

FnVal(f, vs) ==
  LET w(i) == IF vs[i].k = "i" /\ ZIsSmall(vs[i].v) THEN (2 * i + 1) * (ZSmall(vs[i].v) % 1000) ELSE IF vs[i].k = "p" THEN vs[i].x + 2 ELSE 1
      sum[i \in 0..Len(vs)] == IF i = 0 THEN Len(f) ELSE sum[i - 1] + w(i)
  IN sum[Len(vs)] % 61
ShowCall(f, vs) == LET j[i \in 0..Len(vs)] == IF i = 0 THEN "" ELSE j[i - 1] \o (IF i > 1 THEN ", " ELSE "") \o Show(vs[i]) IN f \o "(" \o j[Len(vs)] \o ")"
CallRes(G, f, vs, S) ==
  LET rt == IF Has(G.fns, f) THEN G.fns[f].r ELSE IntT
      v == Conv(G, VI("int", ZI(FnVal(f, vs))), rt)
      c == [S EXCEPT !.tr = @ \o <<ShowCall(f, vs)>>]
  IN IF rt = TB("void") THEN Out(VV, c) ELSE IF v = <<>> THEN OpenAt(S) ELSE Out(v[1], c)

RECURSIVE Ev(_, _, _)
RECURSIVE Lv(_, _, _)
RECURSIVE EvArgs(_, _, _, _)

\* two operands: [s, a, b, S]
Two(G, x, y, S) ==
  LET a == Ev(G, x, Fresh(S)) IN
  IF a.s # "ok" THEN [s |-> a.s, a |-> VV, b |-> VV, S |-> S]
  ELSE LET b == Ev(G, y, Fresh(a.S)) IN
       IF b.s # "ok" THEN [s |-> b.s, a |-> VV, b |-> VV, S |-> S]
       ELSE LET u == Unseq(S, a.S, b.S) IN [s |-> IF u.ok THEN "ok" ELSE "open", a |-> a.v, b |-> b.v, S |-> u.S]

\* places: [s, l, S]
Place(o, x, t, S) == [s |-> "ok", l |-> [o |-> o, x |-> x, t |-> t], S |-> S]
NoPlace(S) == [s |-> "open", l |-> [o |-> Null, x |-> 0, t |-> NoTy], S |-> S]
Lv(G, y, S) ==
  LET x == Strip(y) IN
  CASE x.k = "id" -> (IF Has(S.env, x.n) THEN Place(S.env[x.n].o, 0, S.env[x.n].t, S) ELSE NoPlace(S))
    [] x.k = "un" /\ x.op = "*" -> (LET p == Ev(G, x.e, S) IN IF p.s = "ok" /\ p.v.k = "p" THEN Place(p.v.o, p.v.x, p.v.t, p.S) ELSE NoPlace(S))
    [] x.k = "idx" -> (LET r == Two(G, x.a, x.i, S) IN
                       IF r.s # "ok" THEN NoPlace(S)
                       ELSE LET p == BinOp(G, "+", r.a, r.b) IN
                            IF p = <<>> THEN NoPlace(S) ELSE IF p[1].k # "p" THEN NoPlace(S) ELSE Place(p[1].o, p[1].x, p[1].t, r.S))
    [] x.k = "fld" -> (LET p == IF x.arrow THEN Ev(G, x.e, S) ELSE Ev(G, x.e, S)
                           o == IF x.arrow THEN (IF p.s = "ok" /\ p.v.k = "p" THEN Loc(p.v.o, p.v.x) ELSE "") ELSE IF p.s = "ok" /\ p.v.k = "g" THEN p.v.o ELSE ""
                           st == IF o = "" THEN NoTy ELSE p.v.t
                           key == IF st.k \in {"n", "t"} THEN st.n \o "." \o x.f ELSE ""
                           ft == IF Has(G.fields, key) THEN Qual(G.fields[key], st.c, st.v) ELSE NoTy
                       IN IF o = "" \/ ft = NoTy THEN NoPlace(S) ELSE Place(o \o "." \o x.f, 0, ft, p.S))
    [] OTHER -> NoPlace(S)

\* add n to the object at l; which: the value before or after
Bump(G, r, n, after) ==
  IF r.s # "ok" THEN OpenAt(r.S)
  ELSE LET o == ReadAt(G, r.l, r.S) IN
    IF o.s # "ok" THEN o
    ELSE LET v == BinOp(G, "+", o.v, VI("int", ZI(n))) IN
      IF v = <<>> THEN OpenAt(r.S)
      ELSE LET w == WriteAt(G, r.l, v[1], o.S) IN IF w.s # "ok" THEN w ELSE Out(IF after THEN w.v ELSE o.v, w.S)

AsgOp(op) == SubSeq(op, 1, Len(op) - 1)

EvArgs(G, as, i, S) ==
  IF i > Len(as) THEN [s |-> "ok", vs |-> <<>>, S |-> S]
  ELSE LET a == Ev(G, as[i], Fresh(S)) IN
    IF a.s # "ok" THEN [s |-> a.s, vs |-> <<>>, S |-> S]
    ELSE LET b == EvArgs(G, as, i + 1, Fresh(a.S)) IN
      IF b.s # "ok" THEN b
      ELSE LET u == Unseq(S, a.S, b.S) IN [s |-> IF u.ok THEN "ok" ELSE "open", vs |-> <<a.v>> \o b.vs, S |-> u.S]

Ev(G, x, S) ==
  CASE x.k = "par" -> Ev(G, x.e, S)
    [] x.k = "lit" ->
         (CASE x.t.k = "int" -> (LET t == LitTy(G.lw, x.t, x.s) IN IF t = "" THEN OpenAt(S) ELSE Out(VI(t, ZMk(FALSE, x.t.v)), S))
            [] x.t.k = "flt" /\ x.t.e \in (0 - 30)..30 /\ Len(x.t.d) <= 20 ->
                 (LET t == IF x.t.x = "f" THEN "float" ELSE IF x.t.x = "l" THEN "ldouble" ELSE "double" IN Out(VF(t, FDec(x.t.d, x.t.e, Prec(t))), S))
            [] x.t.k = "chr" /\ x.t.dom /\ x.t.p = "" /\ x.t.v[1] < 128 -> Out(VI(IF Alt(G.lw) THEN "char" ELSE "int", ZI(x.t.v[1])), S)
            [] x.t.k = "str" /\ x.t.dom /\ x.t.p = "" -> Out([k |-> "s", u |-> x.t.v \o <<0>>], S)
            [] OTHER -> OpenWhy(S, "literal"))
    [] x.k = "id" -> (IF Has(S.env, x.n) THEN ReadAt(G, [o |-> S.env[x.n].o, x |-> 0, t |-> S.env[x.n].t], S)
                      ELSE IF HasConst(G, x.n) THEN Out(ConstOf(G, x.n), S) ELSE OpenWhy(S, "name " \o x.n))
    [] x.k = "un" ->
         (CASE x.op = "&" -> (LET l == Lv(G, x.e, S) IN IF l.s = "ok" THEN Out(VP(l.l.t, l.l.o, l.l.x), l.S) ELSE OpenAt(S))
            [] x.op = "*" -> (LET l == Lv(G, x, S) IN IF l.s = "ok" THEN ReadAt(G, l.l, l.S) ELSE OpenAt(S))
            [] x.op \in {"++", "--"} -> Bump(G, Lv(G, x.e, S), IF x.op = "++" THEN 1 ELSE 0 - 1, TRUE)
            [] OTHER ->
                 LET r == Ev(G, x.e, S) IN
                 IF r.s # "ok" THEN r
                 ELSE CASE x.op = "!" -> (LET b == Truth(r.v) IN IF b = <<>> THEN OpenAt(S) ELSE Out(Bit(~b[1]), r.S))
                        [] r.v.k = "i" ->
                             (LET t == Promote(G.lw, r.v.t)
                                  z == CASE x.op = "+" -> <<r.v.v>>
                                         [] x.op = "-" -> IntOp(G, "-", t, Z0, r.v.v)
                                         [] OTHER -> <<WrapTy(G.lw, ZSub(ZI(0 - 1), r.v.v), t)>>
                              IN IF z = <<>> THEN OpenAt(S) ELSE Out(VI(t, z[1]), r.S))
                        [] r.v.k = "f" /\ x.op \in {"+", "-"} -> Out(IF x.op = "-" THEN VF(r.v.t, FNeg(r.v.f)) ELSE r.v, r.S)
                        [] OTHER -> OpenAt(S))
    [] x.k = "post" -> Bump(G, Lv(G, x.e, S), IF x.op = "++" THEN 1 ELSE 0 - 1, FALSE)
    [] x.k \in {"idx", "fld"} -> (LET l == Lv(G, x, S) IN IF l.s = "ok" THEN ReadAt(G, l.l, l.S) ELSE OpenAt(S))
    [] x.k = "bin" /\ x.op \in {"&&", "||"} ->
         (LET a == Ev(G, x.l, S) IN
          IF a.s # "ok" THEN a
          ELSE LET b == Truth(a.v) IN
            IF b = <<>> THEN OpenAt(S)
            ELSE IF b[1] = (x.op = "||") THEN Out(Bit(b[1]), a.S)
            ELSE LET c == Ev(G, x.r, a.S) IN IF c.s # "ok" THEN c ELSE LET d == Truth(c.v) IN IF d = <<>> THEN OpenAt(S) ELSE Out(Bit(d[1]), c.S))
    [] x.k = "bin" -> (LET r == Two(G, x.l, x.r, S) IN
                       IF r.s # "ok" THEN OpenAt(S) ELSE LET v == BinOp(G, x.op, r.a, r.b) IN IF v = <<>> THEN OpenAt(S) ELSE Out(v[1], r.S))
    [] x.k = "cond" ->
         (LET c == Ev(G, x.c, S) IN
          IF c.s # "ok" THEN c
          ELSE LET b == Truth(c.v) IN
            IF b = <<>> THEN OpenAt(S)
            ELSE LET r == Ev(G, IF b[1] THEN x.a ELSE x.b, c.S)
                     t == TyOf(G, x, S.env)
                 IN IF r.s # "ok" THEN r
                    ELSE IF r.v.k \in {"v", "g"} THEN r
                    ELSE IF t = NoTy THEN OpenWhy(S, "type")
                    ELSE LET v == Conv(G, r.v, t) IN IF v = <<>> THEN OpenAt(S) ELSE Out(v[1], r.S))
    [] x.k = "asg" ->
         (LET l == Lv(G, x.l, Fresh(S)) IN
          IF l.s # "ok" THEN OpenAt(S)
          ELSE LET r == Ev(G, x.r, Fresh(l.S)) IN
            IF r.s # "ok" THEN r
            ELSE LET u == Unseq(S, l.S, r.S)
                     loc == Loc(l.l.o, l.l.x)
                 IN IF ~u.ok \/ loc \in l.S.wr \cup r.S.wr THEN OpenAt(S)
                    ELSE IF x.op = "=" THEN WriteAt(G, l.l, r.v, u.S)
                    ELSE LET o == ReadAt(G, l.l, u.S) IN
                      IF o.s # "ok" THEN o
                      ELSE LET v == BinOp(G, AsgOp(x.op), o.v, r.v) IN
                           IF v = <<>> THEN OpenAt(S) ELSE WriteAt(G, l.l, v[1], [o.S EXCEPT !.bag = @ \/ (l.l.t.v /\ (l.S.tr \o r.S.tr) # <<>>)]))
    [] x.k = "comma" -> (LET a == Ev(G, x.l, S) IN IF a.s # "ok" THEN a ELSE Ev(G, x.r, a.S))
    [] x.k = "cast" -> (LET r == Ev(G, x.e, S) IN IF r.s # "ok" THEN r ELSE LET v == Conv(G, r.v, Resolve(G, x.t)) IN IF v = <<>> THEN OpenWhy(S, "conversion") ELSE Out(v[1], r.S))
    [] x.k = "sizeof" -> Out(VI("size_t", ZI(SizeOf(G.lw, Resolve(G, x.t)))), S)
    [] x.k = "call" ->
         (LET f == Strip(x.f) IN
          IF f.k # "id" THEN OpenAt(S)
          ELSE LET as == EvArgs(G, x.as, 1, S) IN
            IF as.s # "ok" THEN OpenAt(S)
            ELSE LET n == Len(as.vs)
                     conv == [i \in 1..n |-> IF Has(G.fns, f.n) THEN (IF i <= Len(G.fns[f.n].ps) THEN Conv(G, as.vs[i], G.fns[f.n].ps[i]) ELSE <<>>) ELSE <<as.vs[i]>>]
                 IN IF (Has(G.fns, f.n) /\ Len(G.fns[f.n].ps) # n) \/ \E i \in 1..n : conv[i] = <<>> THEN OpenAt(S)
                    ELSE CallRes(G, f.n, [i \in 1..n |-> conv[i][1]], as.S))
    [] OTHER -> OpenAt(S)

------------------------------------------------------------------------------
(* statements: [s, S] *)
RECURSIVE Ex(_, _, _)
RECURSIVE ExAll(_, _, _, _)
RECURSIVE DoLoop(_, _, _)
Step(S) == [S EXCEPT !.rd = {}, !.wr = {}]
ExAll(G, ss, i, S) == IF i > Len(ss) THEN Out(VV, S) ELSE LET r == Ex(G, ss[i], S) IN IF r.s # "ok" THEN r ELSE ExAll(G, ss, i + 1, r.S)

DoLoop(G, x, S) ==
  IF S.f = 0 THEN OpenWhy(S, "loop")
  ELSE LET b == Ex(G, x.b, [S EXCEPT !.f = @ - 1]) IN
    IF b.s # "ok" THEN b
    ELSE LET c == Ev(G, x.c, Step(b.S)) IN
      IF c.s # "ok" THEN c
      ELSE LET t == Truth(c.v) IN IF t = <<>> THEN OpenAt(S) ELSE IF t[1] THEN DoLoop(G, x, c.S) ELSE Out(VV, c.S)

(* Assembly: what it is handed, as an effect; the objects it writes get values that tell the operands apart.                 *)
(* A tied input shares the operand of its output.  ops: operands [dir, cls, v: value shown]; pl: the places written, or <<>> *)
\* the values of inputs ins[i..], the operands and the map from operand numbers to them
RECURSIVE AsmOuts(_, _, _, _, _)
RECURSIVE AsmIns(_, _, _, _, _)
AsmOpen == [ok |-> FALSE, ops |-> <<>>, pl |-> <<>>, slot |-> <<>>]
AsmOuts(G, os, i, R, S) ==
  IF i > Len(os) \/ ~R.ok THEN R
  ELSE LET l == Lv(G, os[i].e, S)
           d == OutDir(os[i].c)
           v == IF l.s = "ok" /\ d = "inout" THEN ReadAt(G, l.l, S) ELSE OpenAt(S)
       IN IF l.s # "ok" \/ d = "?" \/ (d = "inout" /\ v.s # "ok") THEN AsmOpen
          ELSE IF S.tr # l.S.tr THEN AsmOpen
          ELSE AsmOuts(G, os, i + 1, [R EXCEPT !.ops = Append(@, [dir |-> d, cls |-> OutClass(os[i].c), v |-> IF d = "inout" THEN Show(v.v) ELSE "-"]),
                                               !.pl = Append(@, <<l.l>>), !.slot = Append(@, i)], S)
AsmIns(G, is, i, R, S) ==
  IF i > Len(is) \/ ~R.ok THEN R
  ELSE LET r == Ev(G, is[i].e, S)
           t == TiedTo(is[i].c)
       IN IF r.s # "ok" THEN AsmOpen
          ELSE IF r.S.tr # S.tr \/ r.S.st # S.st THEN AsmOpen
          ELSE IF t >= 0 THEN
            (IF t >= Len(R.ops) THEN AsmOpen
             ELSE IF R.ops[t + 1].dir # "out" THEN AsmOpen
             ELSE AsmIns(G, is, i + 1, [R EXCEPT !.ops[t + 1].dir = "inout", !.ops[t + 1].v = Show(r.v), !.slot = Append(@, t + 1)], S))
          ELSE AsmIns(G, is, i + 1, [R EXCEPT !.ops = Append(@, [dir |-> "in", cls |-> ClassOf(is[i].c), v |-> Show(r.v)]), !.pl = Append(@, <<>>),
                                              !.slot = Append(@, Len(R.ops) + 1)], S)
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
AsmVal(S, k) == VI("int", ZI(20 + 10 * (Len(S.tr) % 5) + k))
AsmText(c, R, att, flags) ==
  "asm " \o ToString([t |-> c.t, ops |-> [i \in 1..Len(c.ord) |-> R.ops[c.ord[i]]], rest |-> [i \in 1..Len(c.rest) |-> R.ops[c.rest[i]]], att |-> att]) \o flags
AsmFlags(regs, mem, cc) == ToString(SeqOf(regs)) \o (IF mem THEN " memory" ELSE "") \o (IF cc THEN " flags" ELSE "")
ExAsm(G, x, S) ==
  LET t == CTpl(x.tpl, 1, x.ext)
      R == AsmIns(G, x.ins, 1, AsmOuts(G, x.outs, 1, [AsmOpen EXCEPT !.ok = TRUE], Step(S)), Step(S))
      clob == {x.clob[i] : i \in 1..Len(x.clob)}
      regs == clob \ {Codes("memory"), Codes("cc")}
  IN IF ~t.ok \/ ~R.ok THEN OpenWhy(S, "assembly")
     ELSE IF ~RefsOk(t.p, R.slot) \/ AttOpen(t.p) THEN OpenWhy(S, "assembly")
     ELSE LET c == Canon(t.p, R.slot, Len(R.ops))
              g == IsGlobal(t.p) /\ R.ops = <<>> /\ x.clob = <<>>
              txt == AsmText(c, R, IsAtt(t.p), IF g THEN " global" ELSE AsmFlags(regs, Codes("memory") \in clob, Codes("cc") \in clob))
              wr == SelectSeq(c.ord, LAMBDA k : R.pl[k] # <<>>)
              all == wr \o SelectSeq(c.rest, LAMBDA k : R.pl[k] # <<>>)
              S1 == [S EXCEPT !.tr = @ \o <<txt>>]
              W[i \in 0..Len(all)] == IF i = 0 THEN Out(VV, S1)
                                      ELSE IF W[i - 1].s # "ok" THEN W[i - 1]
                                      ELSE WriteAt(G, R.pl[all[i]][1], AsmVal(S1, IF i > Len(wr) THEN 0 ELSE i), W[i - 1].S)
          IN IF W[Len(all)].s # "ok" THEN OpenAt(S) ELSE Out(VV, W[Len(all)].S)

Ex(G, x, S) ==
  CASE x.k = "asm" -> ExAsm(G, x, S)
    [] x.k = "ex" -> LET r == Ev(G, x.e, Step(S)) IN IF r.s # "ok" THEN r ELSE Out(VV, r.S)
    [] x.k = "blk" -> LET r == ExAll(G, x.s, 1, S) IN IF r.s # "ok" THEN r ELSE Out(VV, [r.S EXCEPT !.env = S.env])
    [] x.k = "if" -> (LET c == Ev(G, x.c, Step(S)) IN
                      IF c.s # "ok" THEN c
                      ELSE LET t == Truth(c.v) IN
                        IF t = <<>> THEN OpenAt(S)
                        ELSE LET r == Ex(G, IF t[1] THEN x.t ELSE x.e, c.S) IN IF r.s # "ok" THEN r ELSE Out(VV, [r.S EXCEPT !.env = S.env]))
    [] x.k = "do" -> (LET r == DoLoop(G, x, S) IN IF r.s # "ok" THEN r ELSE Out(VV, [r.S EXCEPT !.env = S.env]))
    [] x.k = "decl" ->
         (LET o == IF x.static THEN "static " \o x.n ELSE x.n \o "#" \o ToString(S.n)
              loc == Loc(o, 0)
              r == Ev(G, x.e, Step(S))
              ty == Resolve(G, x.t)
              v == IF r.s = "ok" THEN Conv(G, r.v, ty) ELSE <<>>
              S1 == [r.S EXCEPT !.env = Put(@, x.n, [t |-> ty, o |-> o]), !.n = @ + 1]
          IN IF x.static /\ Has(S.st, loc) THEN Out(VV, [S EXCEPT !.env = Put(@, x.n, [t |-> ty, o |-> o])])
             ELSE IF r.s # "ok" THEN r
             ELSE IF v = <<>> THEN OpenAt(S)
             ELSE Out(VV, [S1 EXCEPT !.st = Put(@, loc, v[1])]))
    [] OTHER -> OpenAt(S)
=============================================================================
