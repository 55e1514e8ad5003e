------------------------------- MODULE TraceC -------------------------------
(* Recorded runs of the real code on macro bodies that compute: the generated Rust, evaluated by RSem, must do what  *)
(* the C body, evaluated by CSem, does - same value, same final objects, same effects in the same order - in each    *)
(* valuation of the World.  ev.name: the macro; step 1 defines it, step 2 generates it.                              *)
EXTENDS World

Trace == ndJsonDeserialize(IOEnv.TRACE)
NE == Len(Trace)
Chunk == 1 + (NE \div 64)

VARIABLE e
Init == e \in {i \in 1..NE : (i - 1) % Chunk = 0}

------------------------------------------------------------------------------
Body(ev) == SelectSeq(ev.steps[1].b, LAMBDA t : ~IsComment(t))
Params(ev) == IF ev.steps[1].op = "df" THEN {ev.steps[1].a[i] : i \in 1..Len(ev.steps[1].a)} ELSE {}

\* what C says: [ok, isx, a]
CTree(G, b) == LET x == ParseExpr(G, b) IN
               IF x.ok THEN [ok |-> TRUE, isx |-> TRUE, a |-> x.a]
               ELSE LET s == ParseStmts(G, b) IN IF s.ok THEN [ok |-> TRUE, isx |-> FALSE, a |-> [k |-> "blk", s |-> s.a]] ELSE [ok |-> FALSE, isx |-> FALSE, a |-> x.a]
CRun(G, t, S) == IF t.isx THEN Ev(G, t.a, S) ELSE Ex(G, t.a, S)

\* Does the C text rely on conversions nobody wrote?  "mix" if so, else the type its Rust form has: "?" an integer literal's, "d" a
\* floating literal's, "bool" that of a comparison.  The library adds no conversions, so only code that needs none has to type-check.
CTyKind(t) == IF t.k = "b" THEN (IF t.n = "ldouble" THEN "double" ELSE t.n) ELSE IF t.k = "p" THEN "ptr" ELSE IF t.k \in {"n", "t"} THEN "agg" ELSE "mix"
CU(a, b) == IF "mix" \in {a, b} THEN "mix" ELSE IF a = b THEN a
            ELSE IF a = "?" /\ b \in IntTys \ {"bool"} THEN b ELSE IF b = "?" /\ a \in IntTys \ {"bool"} THEN a
            ELSE IF a = "d" /\ b \in FltTys THEN b ELSE IF b = "d" /\ a \in FltTys THEN a ELSE "mix"
Mixed(ks) == "mix" \in ks
RECURSIVE LitOnly(_)
LitOnly(x) == CASE x.k = "lit" -> TRUE [] x.k \in {"par", "un"} -> LitOnly(x.e) [] x.k = "bin" -> LitOnly(x.l) /\ LitOnly(x.r) [] OTHER -> FALSE
RECURSIVE CKind(_, _, _)
RECURSIVE CKinds(_, _, _, _)
CKinds(G, ss, i, env) == IF i > Len(ss) THEN "void"
                         ELSE LET s == ss[i]
                                  k == CKind(G, s, env)
                              IN IF k = "mix" THEN k ELSE CKinds(G, ss, i + 1, IF s.k = "decl" THEN Put(env, s.n, [t |-> Resolve(G, s.t), o |-> ""]) ELSE env)
CKind(G, x, env) ==
  LET K(y) == CKind(G, y, env)
      Cnd(y) == LET k == K(y) IN IF k = "bool" \/ k \in IntTys THEN "void" ELSE "mix"       \* tested against an integer zero
  IN CASE x.k = "par" -> K(x.e)
       [] x.k = "lit" -> (CASE x.t.k = "int" -> (IF FitsTy(G.lw, ZMk(FALSE, x.t.v), "int") THEN "?" ELSE LitTy(G.lw, x.t, x.s))
                            [] x.t.k = "flt" -> "d"
                            [] x.t.k = "chr" /\ x.t.p = "" -> "char"
                            [] x.t.k = "str" -> "str"
                            [] OTHER -> "mix")
       [] x.k = "id" -> IF Has(env, x.n) THEN CTyKind(env[x.n].t) ELSE IF HasConst(G, x.n) THEN ConstOf(G, x.n).t ELSE "mix"
       [] x.k = "un" /\ x.op = "!" -> IF LitOnly(x.e) \/ Mixed({Cnd(x.e)}) THEN "mix" ELSE "bool"         \* of a literal: a literal
       [] x.k = "un" /\ x.op \in {"+", "-", "~"} ->
            (LET k == K(x.e) IN IF k = "bool" \/ k = "ptr" \/ (x.op = "~" /\ k \in FltTys \cup {"d"}) \/ (x.op = "-" /\ k \in IntTys /\ ~Signed(k)) THEN "mix" ELSE k)
       [] x.k = "un" /\ x.op \in {"*", "&"} -> IF Mixed({K(x.e)}) THEN "mix" ELSE CTyKind(TyOf(G, x, env))
       [] x.k \in {"un", "post"} -> LET k == K(x.e) IN IF k \in IntTys \ {"bool"} THEN k ELSE "mix"
       [] x.k = "idx" -> IF Mixed({K(x.a), K(x.i)}) THEN "mix" ELSE CTyKind(TyOf(G, x, env))
       [] x.k = "fld" -> IF Mixed({K(x.e)}) THEN "mix" ELSE CTyKind(TyOf(G, x, env))
       [] x.k = "bin" /\ x.op \in CmpOps -> (LET k == CU(K(x.l), K(x.r)) IN IF k = "mix" THEN k ELSE "bool")
       [] x.k = "bin" /\ x.op \in {"&&", "||"} -> IF Mixed({Cnd(x.l), Cnd(x.r)}) THEN "mix" ELSE "bool"
       [] x.k = "bin" /\ x.op \in {"<<", ">>"} -> (LET k == K(x.l) q == K(x.r) IN IF "bool" \in {k, q} \/ Mixed({k, q}) \/ ~({k, q} \subseteq IntTys) THEN "mix" ELSE k)
       [] x.k = "bin" -> (LET k == CU(K(x.l), K(x.r)) IN
                          IF k \in IntTys \cup FltTys \cup {"d"} /\ (k # "bool" \/ x.op \in {"&", "|", "^"}) THEN k ELSE "mix")
       [] x.k = "cond" -> IF Mixed({Cnd(x.c)}) THEN "mix" ELSE CU(K(x.a), K(x.b))
       [] x.k = "asg" -> (LET l == K(x.l) r == K(x.r) IN
                          IF x.op \in {"<<=", ">>="} THEN (IF {l, r} \subseteq IntTys \ {"bool"} THEN l ELSE "mix")
                          ELSE LET k == CU(l, r) IN IF k = "bool" \/ (x.op # "=" /\ k \notin IntTys \cup FltTys) THEN "mix" ELSE k)
       [] x.k = "comma" -> IF Mixed({K(x.l)}) THEN "mix" ELSE K(x.r)
       [] x.k = "cast" -> (LET k == K(x.e) t == CTyKind(Resolve(G, x.t)) IN
                           IF k = "mix" \/ (k = "bool" /\ t \notin IntTys) \/ (t = "bool" /\ k # "bool") \/ k \in {"agg", "str"} \/ (k \in FltTys /\ t = "ptr") THEN "mix" ELSE t)
       [] x.k = "sizeof" -> "size_t"
       [] x.k = "call" ->
            (LET f == Strip(x.f) IN
             IF f.k # "id" THEN "mix"
             ELSE IF ~Has(G.fns, f.n) THEN "mix"
             ELSE IF Len(x.as) # Len(G.fns[f.n].ps) THEN "mix"
             ELSE IF \E i \in 1..Len(x.as) : CU(K(x.as[i]), CTyKind(G.fns[f.n].ps[i])) = "mix" THEN "mix" ELSE CTyKind(G.fns[f.n].r))
       [] x.k = "asm" -> "void"
       [] x.k = "ex" -> IF K(x.e) = "mix" THEN "mix" ELSE "void"
       [] x.k = "blk" -> CKinds(G, x.s, 1, env)
       [] x.k = "if" -> IF Mixed({Cnd(x.c), K(x.t), K(x.e)}) THEN "mix" ELSE "void"
       [] x.k = "do" -> IF Mixed({Cnd(x.c), K(x.b)}) THEN "mix" ELSE "void"
       [] x.k = "decl" -> IF CU(K(x.e), CTyKind(Resolve(G, x.t))) = "mix" THEN "mix" ELSE "void"
       [] OTHER -> "mix"

\* the sum or product of one of the limits and a literal: the library computes it in the unsigned type, so that UINT_MAX works
RECURSIVE IntLitX(_)
IntLitX(x) == CASE x.k = "lit" -> x.t.k = "int" [] x.k \in {"par", "un"} -> IntLitX(x.e) [] x.k = "bin" -> IntLitX(x.l) /\ IntLitX(x.r) [] OTHER -> FALSE
RECURSIVE LimitX(_)
LimitX(x) == CASE x.k = "bin" -> (x.op \in {"+", "*"} /\ LET l == Strip(x.l) r == Strip(x.r) IN
                                    (l.k = "id" /\ Has(MaxTy, l.n) /\ IntLitX(r)) \/ (r.k = "id" /\ Has(MaxTy, r.n) /\ IntLitX(l))) \/ LimitX(x.l) \/ LimitX(x.r)
               [] x.k \in {"par", "un", "cast"} -> LimitX(x.e)
               [] x.k = "cond" -> LimitX(x.c) \/ LimitX(x.a) \/ LimitX(x.b)
               [] OTHER -> FALSE

\* what the Rust says
RustBody(r) == IF Has(r, "ast") THEN r.ast ELSE r.item.body
RECURSIVE Copies(_, _, _, _)
\* parameters of a function are objects of its own
Copies(G, args, i, S) ==
  IF i > Len(args) THEN S
  ELSE LET n == args[i].n
           t == RTy(G, args[i].t)
           o == n \o "'"
           v == IF Has(S.env, n) /\ Has(S.st, Loc(n, 0)) THEN Conv(G, S.st[Loc(n, 0)], t) ELSE <<>>
       IN IF v = <<>> THEN Copies(G, args, i + 1, S)
          ELSE Copies(G, args, i + 1, [S EXCEPT !.env = Put(@, n, [t |-> t, o |-> o]), !.st = Put(@, Loc(o, 0), v[1])])
ArgEnv(S, ps) == [S EXCEPT !.env = [n \in {"ARG__" \o q : q \in ps \cap DOMAIN S.env} |-> S.env[ArgName(n)]] @@ @]
RRun(G, r, ps, S) ==
  IF Has(r, "ast") THEN REv(G, r.ast, S)
  ELSE IF r.item.k = "fn" THEN
    LET c == REv(G, r.item.body, Copies(G, r.item.args, 1, S)) IN
    IF c.s # "ok" THEN c
    ELSE IF r.item.ret.k = "none" THEN Out(VV, c.S)
    ELSE LET t == RTy(G, r.item.ret) v == IF c.v.k = "d" THEN (IF t.k = "b" /\ t.n \in FltTys THEN Flt(c.v, t.n) ELSE FixF(c.v)) ELSE c.v IN
         IF t.k = "none" THEN OpenWhy(S, "return type")
         ELSE IF v.k = "v" /\ t # TB("void") THEN Stuck(S, "no value returned")
         ELSE IF Lenient(G, v) THEN Out(v, c.S)
         ELSE IF IllAs(G, c.v, t) THEN Ill(S, "return value")
         ELSE LET w == Conv(G, v, t) IN IF w = <<>> THEN OpenWhy(S, "return value") ELSE Out(w[1], c.S)
  ELSE REv(G, r.item.body, ArgEnv(S, ps))

\* objects that outlive the macro
Global(st, l) == Has(Stores[1], l) \/ SubSeq(l, 1, 1) = "@" \/ StartsWith(l, "static ")
Final(S) == [l \in {l \in DOMAIN S.st : Global(S.st, l)} |-> Show(S.st[l])]
BagOf(tr) == [x \in {tr[i] : i \in 1..Len(tr)} |-> Cardinality({i \in 1..Len(tr) : tr[i] = x})]

Diff(f, g) == {x \in DOMAIN f \cup DOMAIN g : IF Has(f, x) /\ Has(g, x) THEN f[x] # g[x] ELSE TRUE}
Ref(f, x) == IF Has(f, x) THEN f[x] ELSE "-"

\* one valuation: "ok", "open ..", "bad .."
Judge1(G, lit, t, r, ps, v) ==
  LET c == CRun([G EXCEPT !.lw = @ + lit], t, S0(v)) IN
  IF c.s # "ok" THEN "copen " \o (IF c.v.k \in {"v", "none"} THEN "" ELSE c.v.k)
  ELSE LET q == RRun(G, r, ps, S0(v)) IN
    CASE q.s = "ill" -> "ill " \o q.v.k
      [] q.s = "open" /\ StartsWith(q.v.k, "no such object") -> "bad valuation " \o ToString(v) \o ": the generated code accesses " \o q.v.k
      [] q.s = "open" -> "ropen " \o (IF q.v.k \in {"v", "none"} THEN "" ELSE q.v.k)
      [] q.s # "ok" -> "bad valuation " \o ToString(v) \o ": the generated code fails: " \o (IF Has(q.v, "k") THEN q.v.k ELSE q.s)
      [] OTHER ->
           LET qv == IF q.v.k = "d" /\ Has(r, "ast") THEN (IF RTy(G, r.ty) = TB("float") THEN Flt(q.v, "float") ELSE FixF(q.v)) ELSE FixF(q.v)
               fc == Final(c.S)
               fr == Final(q.S)
               d == Diff(fc, fr)
               void == c.v.k = "v" \/ ~t.isx \/ (~Has(r, "ast") /\ r.item.k = "fn" /\ r.item.ret.k = "none")
           IN IF ~void /\ Show(c.v) # Show(qv) THEN "bad valuation " \o ToString(v) \o ": value " \o Show(c.v) \o " in C, " \o Show(qv) \o " in Rust"
              ELSE IF d # {} THEN LET l == CHOOSE l \in d : TRUE IN
                     "bad valuation " \o ToString(v) \o ": " \o l \o " becomes " \o Ref(fc, l) \o " in C, " \o Ref(fr, l) \o " in Rust"
              ELSE IF (IF c.S.bag THEN BagOf(c.S.tr) # BagOf(q.S.tr) ELSE c.S.tr # q.S.tr)
                   THEN "bad valuation " \o ToString(v) \o ": effects " \o ToString(c.S.tr) \o " in C, " \o ToString(q.S.tr) \o " in Rust"
              ELSE "ok"

Bad(s) == StartsWith(s, "bad")
IsOk(s) == s = "ok"
GOf(ev, lw, alt) == [GBase EXCEPT !.lw = lw, !.alt = alt, !.params = Params(ev)]
Runs(ev, r, alt, lit) ==
  LET t == CTree(GOf(ev, 64, alt), Body(ev)) IN
  IF ~t.ok THEN <<"copen parse">>
  ELSE TLCEval([i \in 1..(NV + 1) |-> IF i <= NV THEN Judge1(GOf(ev, 64, alt), lit, t, r, Params(ev), i) ELSE Judge1(GOf(ev, 32, alt), lit, t, r, Params(ev), 1)])

\* a C compiler gives it a meaning
Means(ev) == LET t == CTree(GOf(ev, 64, {}), Body(ev)) IN t.ok /\ \E i \in 1..NV : CRun(GOf(ev, 64, {}), t, S0(i)).s = "ok"

Judge(ev) ==
  LET r == ev.steps[2].r IN
  CASE r.s \in {"panic", "crash"} -> "bad the library fails: " \o r.d
    [] r.s = "err" -> IF ev.must /\ Means(ev) THEN "bad rejected: " \o r.e ELSE "rejected"
    [] r.perr # "" -> "bad not Rust: " \o r.perr
    [] OTHER ->
         LET vs == Runs(ev, r, {}, 0) IN
         IF \E i \in 1..Len(vs) : Bad(vs[i]) THEN
           (LET Explains(ws) == \A i \in 1..Len(vs) : Bad(vs[i]) => (IsOk(ws[i]) \/ StartsWith(ws[i], "copen")) IN
            IF Explains(Runs(ev, r, {"name-or-type"}, 0)) THEN "known name-or-type"
            ELSE IF Explains(Runs(ev, r, {}, 100)) THEN "known literal-types"
            ELSE IF Explains(Runs(ev, r, {"name-or-type"}, 100)) THEN "known name-or-type"
            ELSE IF LimitX(CTree(GOf(ev, 64, {}), Body(ev)).a) THEN "known limits"
            ELSE vs[CHOOSE i \in 1..Len(vs) : Bad(vs[i])])
         ELSE IF \E i \in 1..Len(vs) : StartsWith(vs[i], "ill") THEN
           (LET t == CTree(GOf(ev, 64, {}), Body(ev)) w == vs[CHOOSE i \in 1..Len(vs) : StartsWith(vs[i], "ill")] IN
            IF LimitX(t.a) THEN "known limits"
            ELSE IF CKind(GOf(ev, 64, {}), t.a, Env0) # "mix" THEN "bad does not type-check: " \o w
            ELSE LET G == [GOf(ev, 64, {}) EXCEPT !.len = TRUE]
                     ws == IF ev.len THEN TLCEval([i \in 1..NV |-> Judge1(G, 0, t, r, Params(ev), i)]) ELSE <<>>
                 IN IF \E i \in 1..Len(ws) : Bad(ws[i]) THEN "bad bool as int: " \o ws[CHOOSE i \in 1..Len(ws) : Bad(ws[i])]
                    ELSE "ropen implicit conversion: " \o w)
         ELSE IF \E i \in 1..Len(vs) : IsOk(vs[i]) THEN "ok" ELSE vs[1]

\* evaluated once in every state; never fails
Judged ==
  LET ev == Trace[e]
      j == TLCEval(Judge(ev))
      w == CASE Bad(j) -> "bad" [] StartsWith(j, "known") -> "known" [] StartsWith(j, "copen") -> "copen" [] StartsWith(j, "ropen") -> "ropen" [] OTHER -> j
  IN /\ (IF Bad(j) THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j)
         ELSE IF StartsWith(j, "known") THEN PrintT("KNOWN " \o ToString(e) \o " " \o SubSeq(j, 7, Len(j)) \o " x")
         ELSE IF StartsWith(j, "ropen") THEN PrintT("OPEN " \o ToString(e) \o " " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o w)
Next == e < NE /\ e % Chunk # 0 /\ e' = e + 1
Spec == Init /\ [][Next]_e
=============================================================================
