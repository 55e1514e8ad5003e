-------------------------------- MODULE CSyn --------------------------------
(***************************************************************************)
(* The C grammar of expressions, type names and statements (C11 6.5, 6.7,  *)
(* 6.8), as far as macro bodies need it: a recursive descent over tokens.  *)
(* G.ty is the set of names that are types; G.alt selects the reading of   *)
(* `(name) op x` described under KNOWN FINDING below.                      *)
(***************************************************************************)
EXTENDS Lit

NoParse == [ok |-> FALSE, a |-> [k |-> "none"], i |-> 0]
At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE ""
Got(a, i) == [ok |-> TRUE, a |-> a, i |-> i]

Id(s) == s # "" /\ IsIdent(Codes(s))

------------------------------------------------------------------------------
(* type names: [k |-> "b", n] builtin, [k |-> "n", n] named, [k |-> "t", g, n] tagged, [k |-> "p", t] pointer; c, v: qualifiers *)

TyWords == {"void", "bool", "_Bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "size_t", "ssize_t"}
QualWords == {"const", "volatile"}
TagWords == {"struct", "union", "enum"}

\* type specified by the multiset of specifier words ws, "" when there is none
Cnt(ws, w) == Cardinality({i \in 1..Len(ws) : ws[i] = w})
SpecOf(ws) ==
  LET n == Len(ws)
      u == Cnt(ws, "unsigned")  s == Cnt(ws, "signed")  l == Cnt(ws, "long")  h == Cnt(ws, "short")  t == Cnt(ws, "int")
      c == Cnt(ws, "char")
      pre == IF u = 1 THEN "u" ELSE ""
  IN IF n = 1 /\ ws[1] \in {"void", "bool", "_Bool", "float", "double"} THEN (IF ws[1] = "_Bool" THEN "bool" ELSE ws[1])
     ELSE IF n = 2 /\ l = 1 /\ Cnt(ws, "double") = 1 THEN "ldouble"
     ELSE IF n # u + s + l + h + t + c \/ u + s > 1 \/ n = 0 THEN ""
     ELSE IF c = 1 /\ l + h + t = 0 THEN (IF u = 1 THEN "uchar" ELSE IF s = 1 THEN "schar" ELSE "char")
     ELSE IF c > 0 \/ t > 1 \/ (l > 0 /\ h > 0) \/ l > 2 \/ h > 1 THEN ""
     ELSE pre \o (IF h = 1 THEN "short" ELSE IF l = 2 THEN "llong" ELSE IF l = 1 THEN "long" ELSE "int")

TB(n) == [k |-> "b", n |-> n, c |-> FALSE, v |-> FALSE]
TP(t) == [k |-> "p", t |-> t, c |-> FALSE, v |-> FALSE]
TN(n) == [k |-> "n", n |-> n, c |-> FALSE, v |-> FALSE]
TT(g, n) == [k |-> "t", g |-> g, n |-> n, c |-> FALSE, v |-> FALSE]
Qual(t, c, v) == [t EXCEPT !.c = @ \/ c, !.v = @ \/ v]

RECURSIVE Specs(_, _, _, _, _, _, _)
\* specifiers and qualifiers from i; base: named or tagged type seen so far
Specs(G, ts, i, ws, base, c, v) ==
  LET t == At(ts, i) IN
  IF t = "const" THEN Specs(G, ts, i + 1, ws, base, TRUE, v)
  ELSE IF t = "volatile" THEN Specs(G, ts, i + 1, ws, base, c, TRUE)
  ELSE IF t \in TagWords /\ ws = <<>> /\ base.k = "none" /\ Id(At(ts, i + 1)) THEN Specs(G, ts, i + 2, ws, TT(t, At(ts, i + 1)), c, v)
  ELSE IF t \in TyWords /\ t \notin G.ty /\ base.k = "none" THEN Specs(G, ts, i + 1, ws \o <<t>>, base, c, v)
  ELSE IF t \in G.ty /\ ws = <<>> /\ base.k = "none" THEN Specs(G, ts, i + 1, ws, TN(t), c, v)
  ELSE LET b == IF base.k # "none" THEN base ELSE TB(SpecOf(ws)) IN
       IF b.k = "b" /\ b.n = "" THEN NoParse ELSE Got(Qual(b, c, v), i)

RECURSIVE Stars(_, _, _, _)
Stars(ts, i, t, fresh) ==
  CASE At(ts, i) = "*" -> Stars(ts, i + 1, TP(t), TRUE)
    [] fresh /\ At(ts, i) = "const" -> Stars(ts, i + 1, Qual(t, TRUE, FALSE), TRUE)
    [] fresh /\ At(ts, i) = "volatile" -> Stars(ts, i + 1, Qual(t, FALSE, TRUE), TRUE)
    [] OTHER -> Got(t, i)

TypeName(G, ts, i) ==
  LET s == Specs(G, ts, i, <<>>, [k |-> "none"], FALSE, FALSE) IN
  IF s.ok THEN Stars(ts, s.i, s.a, FALSE) ELSE NoParse

\* could a type name start here
TypeStart(G, ts, i) == At(ts, i) \in TyWords \cup QualWords \cup TagWords \cup G.ty

------------------------------------------------------------------------------
(* expressions *)

BinPrec ==
  ("*" :> 10) @@ ("/" :> 10) @@ ("%" :> 10) @@ ("+" :> 9) @@ ("-" :> 9) @@ ("<<" :> 8) @@ (">>" :> 8) @@
  ("<" :> 7) @@ (">" :> 7) @@ ("<=" :> 7) @@ (">=" :> 7) @@ ("==" :> 6) @@ ("!=" :> 6) @@
  ("&" :> 5) @@ ("^" :> 4) @@ ("|" :> 3) @@ ("&&" :> 2) @@ ("||" :> 1)
AsgOps == {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="}
UnOps == {"*", "&", "++", "--", "+", "-", "!", "~"}
Keywords == {"if", "else", "do", "while", "for", "return", "switch", "case", "default", "break", "continue", "goto", "sizeof",
             "static", "extern", "typedef", "asm", "__asm", "__asm__", "inline", "register", "auto"} \cup QualWords \cup TagWords \cup (TyWords \ {"size_t", "ssize_t", "bool"})

RECURSIVE PExpr(_, _, _)
RECURSIVE PAsg(_, _, _)
RECURSIVE PCond(_, _, _)
RECURSIVE PBin(_, _, _, _)
RECURSIVE PBinRest(_, _, _, _)
RECURSIVE PUn(_, _, _)
RECURSIVE PPost(_, _, _)
RECURSIVE PArgs(_, _, _, _)
RECURSIVE PCommas(_, _, _)

PPrim(G, ts, i) ==
  LET s == At(ts, i) IN
  IF s = "" THEN NoParse
  ELSE IF s = "(" THEN LET e == PExpr(G, ts, i + 1) IN IF e.ok /\ At(ts, e.i) = ")" THEN Got([k |-> "par", e |-> e.a], e.i + 1) ELSE NoParse
  ELSE IF Id(s) THEN (IF s \in Keywords THEN NoParse ELSE Got([k |-> "id", n |-> s], i + 1))
  ELSE IF s \in Puncts THEN NoParse
  ELSE LET t == Tok(s) IN
       IF t.k \in {"int", "flt", "chr", "str"} THEN Got([k |-> "lit", t |-> t, s |-> s], i + 1) ELSE NoParse

PArgs(G, ts, i, acc) ==
  IF At(ts, i) = ")" /\ acc = <<>> THEN Got(acc, i + 1)
  ELSE LET e == PAsg(G, ts, i) IN
       IF ~e.ok THEN NoParse
       ELSE IF At(ts, e.i) = "," THEN PArgs(G, ts, e.i + 1, acc \o <<e.a>>)
       ELSE IF At(ts, e.i) = ")" THEN Got(acc \o <<e.a>>, e.i + 1) ELSE NoParse

PPost(G, ts, x) ==
  IF ~x.ok THEN x
  ELSE LET s == At(ts, x.i) IN
    CASE s \in {"++", "--"} -> PPost(G, ts, Got([k |-> "post", op |-> s, e |-> x.a], x.i + 1))
      [] s = "[" -> LET e == PExpr(G, ts, x.i + 1) IN
                    IF e.ok /\ At(ts, e.i) = "]" THEN PPost(G, ts, Got([k |-> "idx", a |-> x.a, i |-> e.a], e.i + 1)) ELSE NoParse
      [] s \in {".", "->"} -> IF Id(At(ts, x.i + 1)) THEN PPost(G, ts, Got([k |-> "fld", e |-> x.a, f |-> At(ts, x.i + 1), arrow |-> s = "->"], x.i + 2))
                              ELSE NoParse
      [] s = "(" -> LET as == PArgs(G, ts, x.i + 1, <<>>) IN
                    IF as.ok THEN PPost(G, ts, Got([k |-> "call", f |-> x.a, as |-> as.a], as.i)) ELSE NoParse
      [] OTHER -> x

(* KNOWN FINDING name-or-type.  The library cannot tell a parenthesised name from a parenthesised type while it parses: it reads *)
(* `(name) - x` as a cast of `-x` and later turns this one node into a subtraction.  G.alt is that reading.                     *)
AltOps == {"+", "-", "*", "&"}

PUn(G, ts, i) ==
  LET s == At(ts, i) IN
  IF s = "(" /\ TypeStart(G, ts, i + 1) THEN
    LET t == TypeName(G, ts, i + 1) IN
    IF t.ok /\ At(ts, t.i) = ")" THEN
      LET e == PUn(G, ts, t.i + 1) IN IF e.ok THEN Got([k |-> "cast", t |-> t.a, e |-> e.a], e.i) ELSE NoParse
    ELSE NoParse
  ELSE IF "name-or-type" \in G.alt /\ s = "(" /\ Id(At(ts, i + 1)) /\ At(ts, i + 2) = ")" /\ At(ts, i + 3) \in AltOps /\ At(ts, i + 1) \notin G.params THEN
    LET e == PUn(G, ts, i + 4)
        op == At(ts, i + 3)
    IN IF e.ok THEN Got([k |-> "par", e |-> [k |-> "bin", op |-> op, l |-> [k |-> "id", n |-> At(ts, i + 1)], r |-> e.a]], e.i) ELSE NoParse
  ELSE IF s = "sizeof" /\ At(ts, i + 1) = "(" /\ TypeStart(G, ts, i + 2) THEN
    LET t == TypeName(G, ts, i + 2) IN IF t.ok /\ At(ts, t.i) = ")" THEN Got([k |-> "sizeof", t |-> t.a], t.i + 1) ELSE NoParse
  ELSE IF s \in UnOps THEN
    LET e == PUn(G, ts, i + 1) IN IF e.ok THEN Got([k |-> "un", op |-> s, e |-> e.a], e.i) ELSE NoParse
  ELSE PPost(G, ts, PPrim(G, ts, i))

PBinRest(G, ts, x, minp) ==
  IF ~x.ok THEN x
  ELSE LET op == At(ts, x.i) IN
    IF op \in DOMAIN BinPrec /\ BinPrec[op] >= minp THEN
      LET r == PBin(G, ts, x.i + 1, BinPrec[op] + 1) IN
      IF r.ok THEN PBinRest(G, ts, Got([k |-> "bin", op |-> op, l |-> x.a, r |-> r.a], r.i), minp) ELSE NoParse
    ELSE x
PBin(G, ts, i, minp) == PBinRest(G, ts, PUn(G, ts, i), minp)

PCond(G, ts, i) ==
  LET c == PBin(G, ts, i, 1) IN
  IF c.ok /\ At(ts, c.i) = "?" THEN
    LET a == PExpr(G, ts, c.i + 1) IN
    IF a.ok /\ At(ts, a.i) = ":" THEN
      LET b == PCond(G, ts, a.i + 1) IN IF b.ok THEN Got([k |-> "cond", c |-> c.a, a |-> a.a, b |-> b.a], b.i) ELSE NoParse
    ELSE NoParse
  ELSE c

\* the grammar wants a unary expression left of an assignment; anything else there violates a constraint
RECURSIVE Strip(_)
Strip(a) == IF a.k = "par" THEN Strip(a.e) ELSE a
IsLv(a) == LET x == Strip(a) IN x.k \in {"id", "idx", "fld"} \/ (x.k = "un" /\ x.op = "*")
PAsg(G, ts, i) ==
  LET l == PCond(G, ts, i) IN
  IF l.ok /\ At(ts, l.i) \in AsgOps /\ l.a.k \in {"id", "idx", "fld", "un", "post", "par", "lit", "call", "sizeof"} THEN
    LET r == PAsg(G, ts, l.i + 1) IN
    IF r.ok THEN Got([k |-> "asg", op |-> At(ts, l.i), l |-> l.a, r |-> r.a], r.i) ELSE NoParse
  ELSE l

PCommas(G, ts, x) ==
  IF x.ok /\ At(ts, x.i) = "," THEN
    LET r == PAsg(G, ts, x.i + 1) IN IF r.ok THEN PCommas(G, ts, Got([k |-> "comma", l |-> x.a, r |-> r.a], r.i)) ELSE NoParse
  ELSE x
PExpr(G, ts, i) == PCommas(G, ts, PAsg(G, ts, i))

ParseExpr(G, ts) == LET e == PExpr(G, ts, 1) IN IF e.ok /\ e.i = Len(ts) + 1 THEN e ELSE NoParse

------------------------------------------------------------------------------
(* statements *)
RECURSIVE PStmt(_, _, _)
RECURSIVE PStmts(_, _, _, _)

PDecl(G, ts, i) ==
  LET st == At(ts, i) = "static"
      t0 == TypeName(G, ts, IF st THEN i + 1 ELSE i)
      st2 == t0.ok /\ At(ts, t0.i) = "static"
      j == IF st2 THEN t0.i + 1 ELSE t0.i
      t == IF st2 THEN Stars(ts, j, t0.a, FALSE) ELSE t0
  IN IF t.ok /\ Id(At(ts, t.i)) /\ At(ts, t.i) \notin Keywords /\ At(ts, t.i + 1) = "=" THEN
       LET e == PAsg(G, ts, t.i + 2) IN
       IF e.ok /\ At(ts, e.i) \in {";", ""} THEN
         Got([k |-> "decl", n |-> At(ts, t.i), t |-> t.a, e |-> e.a, static |-> st \/ st2], IF At(ts, e.i) = ";" THEN e.i + 1 ELSE e.i)
       ELSE NoParse
     ELSE NoParse

\* assembly: string literals, then up to three lists after colons
AsmWords == {"asm", "__asm", "__asm__"}
AsmQuals == {"volatile", "__volatile__", "inline", "goto"}
RECURSIVE PStrs(_, _, _)
PStrs(ts, i, acc) == IF At(ts, i) # "" /\ At(ts, i) \notin Puncts /\ IsStr(At(ts, i)) THEN PStrs(ts, i + 1, acc \o <<At(ts, i)>>) ELSE Got(acc, i)
StrAt(ts, i) ==
  LET r == PStrs(ts, i, <<>>) IN
  IF r.a = <<>> THEN NoParse ELSE LET x == StrRun(r.a) IN IF x.dom /\ x.p = "" /\ ~x.rej THEN Got(x.v, r.i) ELSE NoParse
RECURSIVE POps(_, _, _, _)
POps(G, ts, i, acc) ==
  IF acc = <<>> /\ At(ts, i) \in {":", ")"} THEN Got(acc, i)
  ELSE LET c == StrAt(ts, i) IN
    IF ~c.ok THEN NoParse
    ELSE IF At(ts, c.i) # "(" THEN NoParse
    ELSE LET e == PExpr(G, ts, c.i + 1) IN
      IF ~e.ok \/ At(ts, e.i) # ")" THEN NoParse
      ELSE LET all == acc \o <<[c |-> c.a, e |-> e.a]>> IN
           IF At(ts, e.i + 1) = "," THEN POps(G, ts, e.i + 2, all) ELSE Got(all, e.i + 1)
RECURSIVE PClob(_, _, _)
PClob(ts, i, acc) ==
  IF acc = <<>> /\ At(ts, i) = ")" THEN Got(acc, i)
  ELSE LET c == StrAt(ts, i) IN
       IF ~c.ok THEN NoParse ELSE IF At(ts, c.i) = "," THEN PClob(ts, c.i + 1, acc \o <<c.a>>) ELSE Got(acc \o <<c.a>>, c.i)
RECURSIVE AsmStart(_, _)
AsmStart(ts, i) == IF At(ts, i) \in AsmQuals THEN AsmStart(ts, i + 1) ELSE i
PAsm(G, ts, i) ==
  LET j == AsmStart(ts, i + 1) IN
  IF At(ts, j) # "(" THEN NoParse
  ELSE LET t == StrAt(ts, j + 1) IN
    IF ~t.ok THEN NoParse
    ELSE LET ext == At(ts, t.i) = ":"
             o == IF ext THEN POps(G, ts, t.i + 1, <<>>) ELSE Got(<<>>, t.i)
         IN IF ~o.ok THEN NoParse
            ELSE LET n == IF At(ts, o.i) = ":" THEN POps(G, ts, o.i + 1, <<>>) ELSE Got(<<>>, o.i) IN
              IF ~n.ok THEN NoParse
              ELSE LET c == IF At(ts, n.i) = ":" THEN PClob(ts, n.i + 1, <<>>) ELSE Got(<<>>, n.i) IN
                IF ~c.ok \/ At(ts, c.i) # ")" \/ At(ts, c.i + 1) \notin {";", ""} THEN NoParse
                ELSE Got([k |-> "asm", tpl |-> t.a, ext |-> ext, outs |-> o.a, ins |-> n.a, clob |-> c.a], IF At(ts, c.i + 1) = ";" THEN c.i + 2 ELSE c.i + 1)

\* a macro body may leave its last semicolon to the place of use
PStmt(G, ts, i) ==
  LET s == At(ts, i)
      Cond(j) == IF At(ts, j) = "(" THEN LET e == PExpr(G, ts, j + 1) IN IF e.ok /\ At(ts, e.i) = ")" THEN Got(e.a, e.i + 1) ELSE NoParse ELSE NoParse
  IN CASE s = "{" -> LET b == PStmts(G, ts, i + 1, <<>>) IN IF b.ok /\ At(ts, b.i) = "}" THEN Got([k |-> "blk", s |-> b.a], b.i + 1) ELSE NoParse
       [] s = "if" -> LET c == Cond(i + 1) IN IF ~c.ok THEN NoParse ELSE
                      LET t == PStmt(G, ts, c.i) IN IF ~t.ok THEN NoParse ELSE
                      IF At(ts, t.i) = "else" THEN
                        LET e == PStmt(G, ts, t.i + 1) IN IF e.ok THEN Got([k |-> "if", c |-> c.a, t |-> t.a, e |-> e.a], e.i) ELSE NoParse
                      ELSE Got([k |-> "if", c |-> c.a, t |-> t.a, e |-> [k |-> "blk", s |-> <<>>]], t.i)
       [] s = "do" -> LET b == PStmt(G, ts, i + 1) IN IF ~b.ok \/ At(ts, b.i) # "while" THEN NoParse ELSE
                      LET c == Cond(b.i + 1) IN
                      IF c.ok /\ At(ts, c.i) \in {";", ""} THEN
                        Got([k |-> "do", b |-> b.a, c |-> c.a], IF At(ts, c.i) = ";" THEN c.i + 1 ELSE c.i) ELSE NoParse
       [] s = ";" -> Got([k |-> "blk", s |-> <<>>], i + 1)
       [] s \in AsmWords -> PAsm(G, ts, i)
       [] s = "static" \/ TypeStart(G, ts, i) -> PDecl(G, ts, i)
       [] OTHER -> LET e == PExpr(G, ts, i) IN
                   IF e.ok /\ At(ts, e.i) \in {";", ""} THEN Got([k |-> "ex", e |-> e.a], IF At(ts, e.i) = ";" THEN e.i + 1 ELSE e.i) ELSE NoParse

PStmts(G, ts, i, acc) ==
  IF i > Len(ts) \/ At(ts, i) = "}" THEN Got(acc, i)
  ELSE LET s == PStmt(G, ts, i) IN IF s.ok THEN PStmts(G, ts, s.i, acc \o <<s.a>>) ELSE NoParse

ParseStmts(G, ts) == LET s == PStmts(G, ts, 1, <<>>) IN IF s.ok /\ s.i = Len(ts) + 1 THEN s ELSE NoParse
=============================================================================
