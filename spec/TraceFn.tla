------------------------------ MODULE TraceFn ------------------------------
(***************************************************************************)
(* Recorded exports of function-like macros (C15, C22).  ev.cx is what the *)
(* context answered.  The form is the one Export asks for, the export has  *)
(* the parameters of the macro, with the types or fragments they need, and *)
(* a function returns a value of the type C gives the expression.          *)
(* Arguments of known functions are converted to what the function takes.  *)
(***************************************************************************)
EXTENDS TraceC, Export

Ps(ev) == ev.steps[1].a
Kn(ev) == [args |-> {p \in {Ps(ev)[i] : i \in 1..Len(Ps(ev))} : Has(ev.cx.args, "M/" \o p)},
           vars |-> DOMAIN ev.cx.enums,
           fns |-> [f \in DOMAIN ev.cx.funcs \cap DOMAIN FnTy |-> FnTy[f]],
           own |-> Has(ev.cx.funcs, "M")]
ParSet(ev) == {Ps(ev)[i] : i \in 1..Len(Ps(ev))} \ {"..."}

RECURSIVE SameTy(_, _)
SameTy(a, b) == IF a.k = "p" /\ b.k = "p" THEN a.t.c = b.t.c /\ SameTy(Bare(a.t), Bare(b.t)) ELSE IF a.k = "b" /\ b.k = "b" THEN a.n = b.n \/ {a.n, b.n} = {"double", "ldouble"}
                ELSE Bare(a) = Bare(b)
TyIn(S, t) == \E q \in S : SameTy(Bare(q), Bare(t))

\* parameters with the type they have, or get from the calls
EnvOf(ns, ev, K) ==
  [n \in DOMAIN Env0 \cup ParSet(ev) |->
     IF n \in ParSet(ev) \ K.args /\ Candidates(ns, n, ParSet(ev), K) # {} THEN [t |-> CHOOSE t \in Candidates(ns, n, ParSet(ev), K) : TRUE, o |-> n]
     ELSE IF Has(Env0, n) THEN Env0[n] ELSE [t |-> TB("int"), o |-> n]]

\* conversions without loss
Widens(a, p) == \/ a = p
                \/ a \in {"char", "schar", "bool", "short"} /\ p \in {"short", "int", "long", "llong"}
                \/ a = "int" /\ p \in {"long", "llong", "double"}
                \/ a = "uint" /\ p \in {"long", "llong", "ulong", "ullong", "double"}
                \/ a \in {"long", "llong"} /\ p \in {"long", "llong"}
                \/ a = "float" /\ p = "double"
                \/ a = "?" /\ p \in IntTys \cup FltTys
                \/ a = "d" /\ p \in FltTys

Why(f) == CASE f.variadic -> "it is variadic"
            [] f.untyped # {} -> "nothing tells the type of " \o ToString(f.untyped)
            [] f.free # {} -> "unknown names " \o ToString(f.free)
            [] f.hash -> "# or ##"
            [] f.modified # {} -> "it modifies or takes the address of " \o ToString(f.modified)
            [] f.types # {} -> "types " \o ToString(f.types)
            [] OTHER -> "a function of this name exists"

FormOf(ev, t, it) ==
  LET K == Kn(ev)
      ps == Ps(ev)
      set == ParSet(ev)
      b == Body(ev)
      G == [GOf(ev, 64, {}) EXCEPT !.ty = @ \cup t.ty]
      ns == TLCEval(Nodes(t.a))
      f == TLCEval(Facts(t, b, ps, K))
      env == TLCEval(EnvOf(ns, ev, K))
      kind == IF ~t.isx THEN "void" ELSE IF f.free # {} \/ f.untyped # {} \/ f.hash \/ f.types # {} THEN "" ELSE CKind(G, t.a, env)
      N == Len(ps)
  IN IF it.k = "fn" THEN
       CASE MustMacro(f) -> "bad exported as a function although " \o Why(f)
         [] it.n # "M" \/ it.vis # "pub" -> "bad the function is called " \o it.n
         [] Len(it.args) # N -> "bad number of parameters"
         [] \E i \in 1..N : it.args[i].n # ps[i] -> "bad order or names of the parameters"
         [] \E i \in 1..N : LET u == RTy(G, it.args[i].t) IN
              ~(IF ps[i] \in K.args THEN SameTy(u, Env0[ps[i]].t) ELSE TyIn(Candidates(ns, ps[i], set, K), u)) -> "bad type of a parameter"
         [] kind \in {"", "mix", "?", "d", "char", "str"} \/ (t.isx /\ LimitX(t.a)) -> "open value"
         [] kind = "void" -> (IF it.ret.k = "none" THEN "ok" ELSE "bad a return type for no value")
         [] it.ret.k = "none" -> (IF t.a.k \in {"asg", "post"} \/ (t.a.k = "un" /\ t.a.op \in {"++", "--"}) THEN "ok" ELSE "bad no return type")
         [] OTHER -> LET u == RTy(G, it.ret) c == TyOf(G, t.a, env) IN
              IF kind = "bool" THEN (IF u.k = "b" /\ u.n \in {"bool", "int"} THEN "ok" ELSE "bad return type")
              ELSE IF c.k = "none" \/ c = NoTy THEN "open type" ELSE IF SameTy(c, u) THEN "ok" ELSE "bad return type"
     ELSE
       CASE MustFn(f, kind) -> "bad exported as a macro although all types are known"
         [] ~EndsWith(it.use, " as M ;") \/ ~StartsWith(it.use, it.n \o " as") \/ ~it.export -> "bad the macro is exported as " \o it.use
         [] Len(it.params) # N -> "bad number of parameters"
         [] \E i \in 1..N : it.params[i].n # ps[i] -> "bad order or names of the parameters"
         [] \E i \in 1..N : ps[i] # "..." /\ it.params[i].frag \notin Frags(ns, b, ps[i]) -> "bad fragment of a parameter"
         [] OTHER -> "ok"

Lossy(G, ns, env, K) ==
  \E i \in 1..Len(ns) : LET x == ns[i] IN
    /\ x.k = "call" /\ Plain(x.f)
    /\ IF ~Has(K.fns, x.f.n) THEN TRUE ELSE IF Len(K.fns[x.f.n].ps) # Len(x.as) THEN TRUE
       ELSE \E j \in 1..Len(x.as) : ~Widens(CKind(G, x.as[j], env), CTyKind(K.fns[x.f.n].ps[j]))

JudgeFn(ev) ==
  LET r == ev.steps[2].r IN
  CASE r.s \in {"panic", "crash"} -> "bad the library fails: " \o r.d
    [] r.s = "err" -> "rejected"
    [] r.perr # "" -> "bad not Rust: " \o r.perr
    [] OTHER ->
      LET t == TLCEval(TreeOf(GOf(ev, 64, {}), Body(ev), ParSet(ev))) IN
      IF ~t.ok THEN "copen parse"
      ELSE LET j1 == TLCEval(FormOf(ev, t, r.item)) IN
        IF Bad(j1) THEN j1
        ELSE LET j2 == TLCEval(Judge(ev))
                 ns == TLCEval(Nodes(t.a))
             IN IF StartsWith(j2, "ropen implicit conversion: ill arguments of") /\ ~Lossy(GOf(ev, 64, {}), ns, EnvOf(ns, ev, Kn(ev)), Kn(ev))
                THEN "bad an argument is not converted: " \o j2
                ELSE IF StartsWith(j2, "known") THEN (IF j1 = "ok" THEN j1 ELSE "ropen " \o j2)
                ELSE IF StartsWith(j2, "copen") \/ j2 = "rejected" THEN (IF j1 = "ok" THEN j1 ELSE j2) ELSE j2

\* local variables the second context has other objects of the same name for
LocalNames(ev) == LET c == ev.steps[3].cx IN
  {n \in Locals(Nodes(TreeOf(GOf(ev, 64, {}), Body(ev), ParSet(ev)).a)) : Has(c.enums, n) \/ Has(c.funcs, n)}

\* the same macro under a context that answers for other names as well
JudgeTwo(ev) ==
  LET a == ev.steps[2].r b == ev.steps[3].r IN
  CASE a.s \in {"panic", "crash"} -> "bad the library fails: " \o a.d
    [] b.s \in {"panic", "crash"} -> "bad the library fails: " \o b.d
    [] a.s # b.s -> "bad answers for other names decide whether it is accepted"
    [] a.s = "err" -> IF a.e = b.e THEN "rejected" ELSE "bad answers for other names change the error"
    [] a.toks # b.toks \/ a.ttoks # b.ttoks ->
         IF LocalNames(ev) # {} THEN "known local-names" ELSE "bad answers for other names change the result"
    [] OTHER -> "ok"

JudgedFn ==
  LET ev == Trace[e]
      j == TLCEval(IF Len(ev.steps) = 3 THEN JudgeTwo(ev) ELSE JudgeFn(ev))
      w == CASE Bad(j) -> "bad" [] StartsWith(j, "known") -> "known" [] StartsWith(j, "copen") -> "copen" [] StartsWith(j, "ropen") -> "ropen" [] OTHER -> j
  IN /\ (IF Bad(j) THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j)
         ELSE IF StartsWith(j, "known") THEN PrintT("KNOWN " \o ToString(e) \o " " \o SubSeq(j, 7, Len(j)) \o " x")
         ELSE IF StartsWith(j, "ropen") THEN PrintT("OPEN " \o ToString(e) \o " " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o w)
=============================================================================
