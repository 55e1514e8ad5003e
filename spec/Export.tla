------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* In which form a function-like macro is exported (C15).  K is what the   *)
(* caller's context knows: K.args the typed parameters, K.vars the         *)
(* variables and enumerators, K.fns the functions, K.own whether the name  *)
(* of the macro is already that of a function.  ps: the parameters, b: the *)
(* body as tokens.                                                         *)
(***************************************************************************)
EXTENDS CSyn

Join(a, b) == a \o "_cat_" \o b
RECURSIVE Prep(_, _, _)
\* x ## y is one name, # x a string
Prep(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] = "##" /\ acc # <<>> /\ i < Len(b) THEN Prep(b, i + 2, [acc EXCEPT ![Len(acc)] = Join(@, b[i + 1])])
  ELSE IF b[i] = "#" /\ i < Len(b) THEN Prep(b, i + 2, Append(acc, "\"#\""))
  ELSE Prep(b, i + 1, Append(acc, b[i]))
Pasted(b) == {b[i] : i \in {i \in 1..Len(b) : (i > 1 /\ b[i - 1] = "##") \/ (i < Len(b) /\ b[i + 1] = "##")}}
Strung(b) == {b[i] : i \in {i \in 2..Len(b) : b[i - 1] = "#"}}

Tree(G, b) == LET x == ParseExpr(G, b) IN
              IF x.ok THEN [ok |-> TRUE, isx |-> TRUE, a |-> x.a, ty |-> G.ty]
              ELSE LET s == ParseStmts(G, b) IN
                   IF s.ok THEN [ok |-> TRUE, isx |-> FALSE, a |-> [k |-> "blk", s |-> s.a], ty |-> G.ty] ELSE [ok |-> FALSE, isx |-> FALSE, a |-> x.a, ty |-> G.ty]
\* a parameter may stand for a type; fewest such parameters first
TreeOf(G, b0, ps) ==
  LET b == Prep(b0, 1, <<>>)
      Ty(s) == [G EXCEPT !.ty = @ \cup s]
      t0 == Tree(G, b)
      ok == IF t0.ok THEN {} ELSE {s \in SUBSET (ps \cap {b[i] : i \in 1..Len(b)}) : Tree(Ty(s), b).ok}
  IN IF ok = {} THEN t0 ELSE Tree(Ty(CHOOSE s \in ok : \A r \in ok : Cardinality(s) <= Cardinality(r)), b)

------------------------------------------------------------------------------
Plain(x) == x.k = "id"
Kids(x) ==
  CASE x.k \in {"par", "un", "post", "cast", "fld", "ex", "decl"} -> <<x.e>>
    [] x.k = "idx" -> <<x.a, x.i>>
    [] x.k \in {"bin", "asg", "comma"} -> <<x.l, x.r>>
    [] x.k = "cond" -> <<x.c, x.a, x.b>>
    [] x.k = "call" -> (IF Plain(x.f) THEN <<>> ELSE <<x.f>>) \o x.as
    [] x.k = "blk" -> x.s
    [] x.k = "if" -> <<x.c, x.t, x.e>>
    [] x.k = "do" -> <<x.b, x.c>>
    [] x.k = "asm" -> [i \in 1..Len(x.outs) |-> x.outs[i].e] \o [i \in 1..Len(x.ins) |-> x.ins[i].e]
    [] OTHER -> <<>>
RECURSIVE Nodes(_)
RECURSIVE NodesOf(_, _)
NodesOf(ks, i) == IF i > Len(ks) THEN <<>> ELSE Nodes(ks[i]) \o NodesOf(ks, i + 1)
\* operands first, left to right
Nodes(x) == NodesOf(Kids(x), 1) \o <<x>>
Those(ns, P(_)) == SelectSeq(ns, P)
Img(s, F(_)) == {F(s[i]) : i \in 1..Len(s)}

ValueNames(ns) == Img(SelectSeq(ns, Plain), LAMBDA x : x.n)
Calls(ns) == SelectSeq(ns, LAMBDA x : x.k = "call")
CallNames(ns) == Img(SelectSeq(ns, LAMBDA x : x.k = "call" /\ Plain(x.f)), LAMBDA x : x.f.n)
Locals(ns) == Img(SelectSeq(ns, LAMBDA x : x.k = "decl"), LAMBDA x : x.n)
\* the object an lvalue is part of
RECURSIVE Base(_)
Base(x) == CASE x.k = "id" -> x.n [] x.k = "par" -> Base(x.e) [] x.k = "fld" /\ ~x.arrow -> Base(x.e) [] OTHER -> ""
Written(ns) == UNION Img(ns, LAMBDA x :
                 CASE x.k = "asg" -> {Base(x.l)}
                   [] x.k = "post" \/ (x.k = "un" /\ x.op \in {"++", "--", "&"}) -> {Base(x.e)}
                   [] x.k = "asm" -> {Base(x.outs[i].e) : i \in 1..Len(x.outs)}
                   [] OTHER -> {})
RECURSIVE BaseTy(_)
BaseTy(t) == CASE t.k = "p" -> BaseTy(t.t) [] t.k \in {"n", "t"} -> t.n [] OTHER -> ""
TypeNames(ns) == Img(SelectSeq(ns, LAMBDA x : x.k \in {"cast", "sizeof", "decl"}), LAMBDA x : BaseTy(x.t))
Tested(ns) == UNION Img(ns, LAMBDA x : CASE x.k = "call" /\ Plain(x.f) -> {x.f.n} [] OTHER -> {})

MaxNames == {"__SCHAR_MAX__", "__SHRT_MAX__", "__INT_MAX__", "__LONG_MAX__", "__LONG_LONG_MAX__"}
PlaceNames == {"__LINE__", "__FILE__"}

\* types of a parameter that follow from passing it to functions; arity[f] the types f takes
Direct(x, p) == {i \in 1..Len(x.as) : Strip(x.as[i]).k = "id" /\ Strip(x.as[i]).n = p}
Infers(x, p, K) == x.k = "call" /\ Plain(x.f) /\ x.f.n \in DOMAIN K.fns /\ Len(K.fns[x.f.n].ps) = Len(x.as) /\ Direct(x, p) # {}
Candidates(ns, p, ps, K) ==
  UNION Img(SelectSeq(ns, LAMBDA x : Infers(x, p, K) /\ x.f.n \notin ps), LAMBDA x : {K.fns[x.f.n].ps[i] : i \in Direct(x, p)})

Facts(t, b, ps, K) ==
  LET ns == TLCEval(Nodes(t.a))
      lo == Locals(ns)
      set == {ps[i] : i \in 1..Len(ps)} \ {"..."}
      ex == set \cup lo \cup MaxNames
      un == {p \in set : p \notin K.args /\ Candidates(ns, p, set, K) = {}}
  IN [variadic |-> ps # <<>> /\ ps[Len(ps)] = "...",
      untyped |-> un,
      free |-> (ValueNames(ns) \ (ex \cup K.vars)) \cup (CallNames(ns) \ (set \cup DOMAIN K.fns)),
      hash |-> (Pasted(b) \cup Strung(b)) # {},
      modified |-> Written(ns) \cap set,
      types |-> TypeNames(ns) \cap set,
      called |-> CallNames(ns) \cap set,
      locals |-> lo,
      arity |-> \E i \in 1..Len(ns) : ns[i].k = "call" /\ (IF Plain(ns[i].f) THEN ns[i].f.n \in DOMAIN K.fns /\ Len(K.fns[ns[i].f.n].ps) # Len(ns[i].as) ELSE TRUE),
      \* a parameter used before the call its type follows from
      early |-> \E p \in set \ K.args : p \notin un /\
                  LET f == CHOOSE i \in 1..Len(ns) : Infers(ns[i], p, K) /\ \A j \in 1..(i - 1) : ~Infers(ns[j], p, K)
                  IN Cardinality({i \in 1..(f - 1) : ns[i].k = "id" /\ ns[i].n = p}) > Cardinality(Direct(ns[f], p)),
      own |-> K.own]

MustMacro(f) == f.variadic \/ f.untyped # {} \/ f.free # {} \/ f.hash \/ f.modified # {} \/ f.own \/ f.types # {}
\* kind: that of the value, "" when it is not determined by what is known
MustFn(f, kind) == ~MustMacro(f) /\ f.locals = {} /\ f.called = {} /\ ~f.arity /\ ~f.early /\ kind \notin {"", "mix", "?", "d", "str", "char"}

\* the fragments that let a parameter stand where it is used, the most general ones
Frags(ns, b, p) ==
  LET asId == p \in Pasted(b) \/ p \in Img(SelectSeq(ns, LAMBDA x : x.k = "fld"), LAMBDA x : x.f)
      asTy == p \in TypeNames(ns)
      asEx == p \in ValueNames(ns)
      asFn == p \in CallNames(ns)
  IN IF asId \/ p \in Locals(ns) THEN {"ident", "tt"}
     ELSE IF asTy THEN (IF asEx THEN {"ident", "tt", "expr", "ty"} ELSE {"ty"})
     ELSE IF asFn THEN {"expr", "ident", "path"}
     ELSE {"expr"}
=============================================================================
