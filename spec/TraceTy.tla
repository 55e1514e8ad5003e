------------------------------- MODULE TraceTy -------------------------------
(***************************************************************************)
(* Recorded runs on C types (C16): ev.ty is the spelling of a type, used   *)
(* in ev.form; wherever the library accepts it, the Rust type in its place *)
(* has to be the one the C type denotes.                                   *)
(***************************************************************************)
EXTENDS CTypes, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
NE == Len(Trace)
Chunk == 1 + (NE \div 64)
VARIABLE e
Init == e \in {i \in 1..NE : (i - 1) % Chunk = 0}

X(ev) == [ffi |-> ev.cx.ffi, types |-> ev.cx.types]
G1(ev) == [ty |-> DOMAIN ev.cx.types, alt |-> {}, params |-> {}]
NoTy == [k |-> "none"]
TyOfSeq(ev, ts) == LET r == TypeName(G1(ev), ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r.a ELSE NoTy
R(ev) == ev.steps[Len(ev.steps)].r
Has(f, x) == x \in DOMAIN f

\* the statement a macro consists of
Stmts(r) == IF r.item.k \in {"fn", "macro"} /\ r.item.body.k = "block" THEN r.item.body.s ELSE <<>>
Only(r) == IF Len(Stmts(r)) >= 1 THEN Stmts(r)[1] ELSE NoTy
Expr(r) == LET s == Only(r) IN IF s.k = "expr" THEN s.e ELSE NoTy
CastTy(x) == IF x.k = "cast" THEN x.t ELSE NoTy

\* a type that is not of an object: void, qualified or not
IsVoid(t) == t.k = "b" /\ t.n = "void"
Fits(ev, t, j) == RustIs(X(ev), t, j)
\* "" or what is wrong
Wrong(ev, t) ==
  LET r == R(ev)
      x == Expr(r)
      s == Only(r)
      Bad(j) == "the type in place of " \o ToString(ev.ty) \o " is " \o (IF Has(j, "s") THEN j.s ELSE j.k)
      Chk(j) == IF Fits(ev, t, j) THEN "" ELSE Bad(j)
  IN CASE ev.form = "cast" ->
            (IF IsVoid(t) THEN (IF x.k = "cast" THEN Bad(x.t) ELSE "") ELSE Chk(CastTy(x)))
       [] ev.form = "castfn" ->
            (IF r.item.k # "fn" THEN "a macro whose argument has a known type is not a function"
             ELSE IF IsVoid(t) THEN (IF r.item.ret.k = "none" THEN "" ELSE Bad(r.item.ret))
             ELSE IF Chk(CastTy(x)) # "" THEN Chk(CastTy(x)) ELSE Chk(r.item.ret))
       [] ev.form = "null" ->
            (LET n == IF t.k = "p" THEN (IF t.t.c THEN "ptr::null" ELSE "ptr::null_mut") ELSE "" IN
             IF n = "" THEN (IF IsVoid(t) THEN "" ELSE Chk(CastTy(x)))
             ELSE IF x.k = "call" /\ x.f.k = "path" THEN (IF x.f.s = Prefixed(ev.cx.trait, n) /\ x.a = <<>> THEN "" ELSE "the null pointer of " \o ToString(ev.ty) \o " is " \o x.f.s)
             ELSE Chk(CastTy(x)))
       [] ev.form = "sizeof" ->
            (LET c == IF x.k = "cast" THEN x.e ELSE x IN
             IF c.k # "call" THEN "sizeof " \o ToString(ev.ty) \o " is not a call of size_of"
             ELSE IF c.f.k # "path" \/ ~(c.f.s = Prefixed(ev.cx.trait, "mem::size_of")) \/ Len(c.f.targs) # 1 THEN "sizeof " \o ToString(ev.ty) \o " is not a call of size_of"
             ELSE Chk(c.f.targs[1]))
       [] ev.form \in {"decl", "static"} ->
            (IF s.k = (IF ev.form = "decl" THEN "let" ELSE "static") THEN Chk(s.t) ELSE "a declaration of " \o ToString(ev.ty) \o " became " \o s.k)
       [] ev.form = "fun" ->
            (IF s.k # "extern" THEN "a function declaration became " \o s.k
             ELSE IF Len(s.f) # 1 THEN "a function declaration became several"
             ELSE LET f == s.f[1] IN
               IF f.k # "fn" \/ f.n # "f" THEN "f is not declared"
               ELSE IF (IF IsVoid(t) THEN f.ret.k # "none" ELSE ~Fits(ev, t, f.ret)) THEN Bad(f.ret)
               ELSE IF Len(f.args) # Len(ev.ps) THEN "f has a different number of parameters"
               ELSE LET w == {i \in 1..Len(ev.ps) : f.args[i].n # "a" \o ToString(i) \/ ~Fits(ev, TyOfSeq(ev, ev.ps[i]), f.args[i].t)} IN
                    IF w = {} THEN "" ELSE "parameter " \o ToString(ev.ps[CHOOSE i \in w : TRUE]) \o " is " \o f.args[CHOOSE i \in w : TRUE].t.s)
       [] ev.form = "str" -> Chk(r.ty)
       [] OTHER -> "unknown form"

ParamsOk(ev) == ev.form = "fun" => \A i \in 1..Len(ev.ps) : TyOfSeq(ev, ev.ps[i]) # NoTy
RECURSIVE Opaque(_)
\* a name the context has no answer for, or a union or an enumeration
Opaque(t) == CASE t.k = "p" -> Opaque(t.t) [] t.k = "t" -> t.g # "struct" [] OTHER -> FALSE
Must(ev) == Usual(ev.ty) /\ (ev.form = "fun" => \A i \in 1..Len(ev.ps) : Usual(ev.ps[i])) /\ ev.form # "void"
Judge(ev) ==
  LET r == R(ev)
      t == TyOfSeq(ev, ev.ty)
  IN CASE r.s \in {"panic", "crash"} -> "bad the library fails: " \o r.d
       [] r.s = "err" -> IF t # NoTy /\ ParamsOk(ev) /\ Must(ev) THEN "bad rejected " \o ToString(ev.ty) \o ": " \o r.e ELSE "rejected"
       [] Has(r, "perr") /\ r.perr # "" -> "bad not Rust: " \o r.perr
       [] t = NoTy \/ ~ParamsOk(ev) ->
            (IF ev.form \in {"cast", "castfn", "null", "sizeof", "str"} THEN "bad " \o ToString(ev.ty) \o " is no type but accepted" ELSE "copen")
       [] OTHER -> LET w == Wrong(ev, t) IN IF w = "" THEN "ok" ELSE "bad " \o w

Judged ==
  LET ev == Trace[e]
      j == TLCEval(Judge(ev))
      b == Len(j) > 3 /\ StartsWith(j, "bad")
  IN /\ (IF b THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o (IF b THEN "bad" ELSE j))
Next == e < NE /\ e % Chunk # 0 /\ e' = e + 1
Spec == Init /\ [][Next]_e
=============================================================================
