-------------------------------- MODULE Cpp --------------------------------
(***************************************************************************)
(* Macro expansion as ISO C 6.10.3 defines it, over sequences of           *)
(* preprocessing tokens.  Big-step reference semantics with hide sets      *)
(* (Prosser's algorithm), plus symbolic expansion of a function-like macro *)
(* with its own parameters left as placeholders.  CppMachine.tla contains  *)
(* the small-step machine; TLC checks that the two agree.                  *)
(*                                                                         *)
(* An environment env maps names to [k : "v"|"f", a : Seq(string),         *)
(* b : Seq(string)].  A token is [t : spelling, hs : set of names, s :     *)
(* "n" ordinary | "y" placeholder | "o" unresolved ## ].                   *)
(*                                                                         *)
(* A result is [ts, err, sk]: err = "" or an error kind; sk = TRUE when C  *)
(* (or the documented interface) leaves the outcome open.                  *)
(***************************************************************************)
EXTENDS Lex

Res(ts) == [ts |-> ts, err |-> "", d |-> "", sk |-> FALSE]
Err(e, d) == [ts |-> <<>>, err |-> e, d |-> d, sk |-> FALSE]
Skip == [ts |-> <<>>, err |-> "", d |-> "", sk |-> TRUE]
Bad(r) == r.err # "" \/ r.sk

T0(s) == [t |-> s, hs |-> {}, s |-> "n"]
PM == [t |-> "", hs |-> {}, s |-> "n"]
Sym(i) == [t |-> "$" \o ToString(i) \o "$", hs |-> {}, s |-> "y"]
SymVa(i) == [t |-> "$" \o ToString(i) \o "$", hs |-> {}, s |-> "v"]
SymCat == [t |-> "##", hs |-> {}, s |-> "o"]
Plain(tok) == tok.s = "n"

Tks(ss) == TLCEval([i \in 1..Len(ss) |-> T0(ss[i])])
Spell(ts) == TLCEval([i \in 1..Len(ts) |-> ts[i].t])
AddHs(ts, H) == TLCEval([i \in 1..Len(ts) |-> [ts[i] EXCEPT !.hs = TLCEval(@ \cup H)]])

------------------------------------------------------------------------------
(* definitions *)

Params(a) == NoWhite(a)
Variadic(ps) == ps # <<>> /\ ps[Len(ps)] = "..."

\* index of the parameter named t, or 0
ParamIx(ps, t) ==
  IF t = "__VA_ARGS__" THEN (IF Variadic(ps) THEN Len(ps) ELSE 0)
  ELSE IF t # "..." /\ \E i \in 1..Len(ps) : ps[i] = t THEN (CHOOSE i \in 1..Len(ps) : ps[i] = t) ELSE 0

\* everything that is wrong with a parameter list
ParamsErrors(ps) ==
  (IF \E i \in 1..Len(ps) : ps[i] # "..." /\ (~IsIdent(Codes(ps[i])) \/ ps[i] = "__VA_ARGS__") THEN {"InvalidArgumentName"} ELSE {})
  \cup (IF \E i, j \in 1..Len(ps) : i < j /\ ps[i] = ps[j] THEN {"NonUniqueArgument"} ELSE {})
  \cup (IF \E i \in 1..(Len(ps) - 1) : ps[i] = "..." THEN {"InvalidArgumentName"} ELSE {})

\* several errors at once: C requires a diagnostic, not a particular one
Several == {"InvalidArgumentName", "NonUniqueArgument", "NonVariadicVarArgs", "FnMacroArgumentError", "StringifyNonArgument",
            "ConcatBegin", "ConcatEnd"}

------------------------------------------------------------------------------
(* # *)

\* is the spelling a preprocessing token?
IsPpNumber(cs) ==
  /\ cs # <<>>
  /\ (IsDigit(cs[1]) \/ (Len(cs) > 1 /\ cs[1] = 46 /\ IsDigit(cs[2])))
  /\ \A i \in 1..Len(cs) : IsWordCh(cs[i]) \/ cs[i] = 46 \/
        (cs[i] \in {43, 45} /\ i > 1 /\ Lower(cs[i - 1]) \in {101, 112})

IsPpTok(s) ==
  \/ s \in Puncts
  \/ LET cs == Codes(s) IN
     \/ IsIdent(cs) \/ IsPpNumber(cs)
     \/ QuotePos(cs, 34) # 0 /\ Units(Sub(cs, QuotePos(cs, 34) + 1, Len(cs) - 1), 1, 34, <<>>).ok
     \/ QuotePos(cs, 39) # 0 /\ Units(Sub(cs, QuotePos(cs, 39) + 1, Len(cs) - 1), 1, 39, <<>>).ok

RECURSIVE EscQ(_)
EscQ(s) == IF s = "" THEN "" ELSE
  LET c == SubSeq(s, 1, 1) IN (IF c = "\"" \/ c = "\\" THEN "\\" \o c ELSE c) \o EscQ(SubSeq(s, 2, Len(s)))

HasQuote(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in {"\"", "'"}

\* spelling inside the produced string literal
StrSpell(s) == IF HasQuote(s) THEN EscQ(s) ELSE s

FirstC(s) == SubSeq(s, 1, 1)
LastC(s) == SubSeq(s, Len(s), Len(s))

\* would the two spellings, written without a space, be read as different tokens?
Merges(a, b) ==
  LET x == Ord(LastC(a)) y == Ord(FirstC(b)) IN
  \/ IsWordCh(x) /\ IsWordCh(y)
  \/ (a \in Puncts /\ b \in Puncts /\ \E n \in 1..Len(b) : (a \o SubSeq(b, 1, n)) \in Puncts)
  \/ IsWordCh(x) /\ FirstC(b) \in {"\"", "'"} /\ a \in {"u8", "u", "U", "L"}
  \/ a = "/" /\ FirstC(b) \in {"/", "*"}
  \/ LastC(a) = "." /\ (FirstC(b) = "." \/ IsDigit(y))
  \/ IsPpNumber(Codes(a)) /\ (FirstC(b) = "." \/ IsWordCh(y) \/ (FirstC(b) \in {"+", "-"} /\ Lower(x) \in {101, 112}))

RECURSIVE JoinSp(_)
JoinSp(ss) ==
  IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN StrSpell(ss[1])
  ELSE StrSpell(ss[1]) \o (IF Merges(ss[1], ss[2]) THEN " " ELSE "`") \o JoinSp(Tail(ss))

\* a string literal in which "`" stands for "one space or nothing"
Stringize(arg) == T0("\"" \o JoinSp(Spell(arg)) \o "\"")

------------------------------------------------------------------------------
(* ## *)

\* sequence of tokens standing for a ## b
Paste2(a, b) ==
  IF a = PM THEN Res(<<b>>)
  ELSE IF b = PM THEN Res(<<a>>)
  ELSE IF a.t = "" THEN (IF b.t \in b.hs THEN Skip ELSE Res(<<b>>))
  ELSE IF b.t = "" THEN (IF a.t \in a.hs THEN Skip ELSE Res(<<a>>))
  ELSE IF ~Plain(a) \/ ~Plain(b) THEN
    Res(<<[a EXCEPT !.hs = @ \cup {a.t}], SymCat, [b EXCEPT !.hs = @ \cup {b.t}]>>)
  ELSE IF IsPpTok(a.t \o b.t) THEN Res(<<[t |-> a.t \o b.t, hs |-> a.hs \cap b.hs, s |-> "n"]>>)
  ELSE Skip

(* operands: sequence of [op : BOOLEAN, ts] *)
RECURSIVE PasteAll(_, _)
PasteAll(ops, out) ==
  IF ops = <<>> THEN Res(out)
  ELSE IF ~ops[1].op THEN PasteAll(Tail(ops), out \o ops[1].ts)
  ELSE IF out = <<>> THEN Err("ConcatBegin", "")
  ELSE IF Len(ops) = 1 THEN Err("ConcatEnd", "")
  ELSE IF ops[2].op THEN Skip
  ELSE LET r == Paste2(out[Len(out)], ops[2].ts[1]) IN
    IF Bad(r) THEN r
    ELSE LET pre == SubSeq(out, 1, Len(out) - 1)
             \* a token pasted next to an unresolved ## stays an operand of it
             glued == Len(r.ts) = 1 /\ pre # <<>> /\ pre[Len(pre)].s = "o"
             mid == IF glued THEN AddHs(r.ts, {r.ts[1].t}) ELSE r.ts
         IN PasteAll(SubSeq(ops, 3, Len(ops)), pre \o mid \o Tail(ops[2].ts))

NoPM(ts) == SelectSeq(ts, LAMBDA x : x.t # "")

Operand(ts) == [op |-> FALSE, ts |-> ts]
Operator == [op |-> TRUE, ts |-> <<>>]

------------------------------------------------------------------------------
(* argument collection: ts[i] is the "(" *)

RECURSIVE Collect(_, _, _, _, _)
Collect(ts, i, depth, cur, args) ==
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> <<>>, close |-> 0]
  ELSE LET x == ts[i].t n == ts[i].s = "n" IN
  IF n /\ x = "(" THEN Collect(ts, i + 1, depth + 1, IF depth = 0 THEN cur ELSE Append(cur, ts[i]), args)
  ELSE IF n /\ x = ")" THEN
    IF depth = 1 THEN [ok |-> TRUE, args |-> Append(args, cur), close |-> i]
    ELSE Collect(ts, i + 1, depth - 1, Append(cur, ts[i]), args)
  ELSE IF n /\ x = "," /\ depth = 1 THEN Collect(ts, i + 1, depth, <<>>, Append(args, cur))
  ELSE Collect(ts, i + 1, depth, Append(cur, ts[i]), args)

Comma == T0(",")
RECURSIVE JoinComma(_)
JoinComma(as) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN as[1] ELSE as[1] \o <<Comma>> \o JoinComma(Tail(as))

\* number of arguments wrong?
ArityBad(ps, args) ==
  IF Variadic(ps) THEN Len(args) < Len(ps) - 1
  ELSE ~(Len(args) = Len(ps) \/ (ps = <<>> /\ args = <<<<>>>>))

Required(ps) == IF Variadic(ps) THEN Len(ps) - 1 ELSE Len(ps)

Actual(ps, args, i) ==
  IF Variadic(ps) /\ i = Len(ps) THEN JoinComma(SubSeq(args, Len(ps), Len(args))) ELSE args[i]

HasSym(ts) == \E i \in 1..Len(ts) : ts[i].s # "n"
HasVa(ts) == \E i \in 1..Len(ts) : ts[i].s = "v"

------------------------------------------------------------------------------

RECURSIVE Scan(_, _, _), Operands(_, _, _, _, _, _)

(* replacement list of a function-like macro with arguments put in, as ## operands *)
Operands(env, ps, args, body, i, ops) ==
  IF i > Len(body) THEN [ops |-> ops, r |-> Res(<<>>)]
  ELSE
  LET t == body[i] p == ParamIx(ps, t)
      stop(r) == [ops |-> <<>>, r |-> r]
  IN
  IF t = "#" THEN
    LET q == IF i < Len(body) THEN ParamIx(ps, body[i + 1]) ELSE 0 IN
    IF q = 0 THEN stop(Err("StringifyNonArgument", ""))
    ELSE LET a == Actual(ps, args, q) IN
      IF Len(a) = 1 /\ a[1].s \in {"y", "v"}
      THEN Operands(env, ps, args, body, i + 2, Append(ops, Operand(<<[T0("#") EXCEPT !.s = "h"], a[1]>>)))
      ELSE IF HasSym(a) THEN stop(Skip)
      ELSE Operands(env, ps, args, body, i + 2, Append(ops, Operand(<<Stringize(a)>>)))
  ELSE IF t = "##" THEN Operands(env, ps, args, body, i + 1, Append(ops, Operator))
  ELSE IF p # 0 THEN
    LET raw == (i > 1 /\ body[i - 1] = "##") \/ (i < Len(body) /\ body[i + 1] = "##")
        a == Actual(ps, args, p)
    IN IF raw THEN
         IF \E k \in 1..Len(a) : a[k].s \in {"o", "h"} THEN stop(Skip)
         ELSE Operands(env, ps, args, body, i + 1, Append(ops, Operand(IF a = <<>> THEN <<PM>> ELSE a)))
       ELSE LET e == Scan(env, <<>>, a) IN
         IF Bad(e) THEN stop(e)
         ELSE Operands(env, ps, args, body, i + 1, Append(ops, Operand(e.ts)))
  ELSE Operands(env, ps, args, body, i + 1, Append(ops, Operand(<<T0(t)>>)))

SubstFn(env, m, args) ==
  LET ps == Params(m.a)
      o == Operands(env, ps, args, NoWhite(m.b), 1, <<>>)
  IN IF Bad(o.r) THEN o.r ELSE
     LET r == PasteAll(o.ops, <<>>) IN IF Bad(r) THEN r ELSE Res(NoPM(r.ts))

SubstVar(m) ==
  LET b == NoWhite(m.b) IN
  IF \E i \in 1..Len(b) : b[i] = "__VA_ARGS__" THEN Err("NonVariadicVarArgs", "")
  ELSE LET r == PasteAll([i \in 1..Len(b) |-> IF b[i] = "##" THEN Operator ELSE Operand(<<T0(b[i])>>)], <<>>)
       IN IF Bad(r) THEN r ELSE Res(NoPM(r.ts))

CallError(name, m, args) ==
  LET ps == Params(m.a)
      es == ParamsErrors(ps)
            \cup (IF ~Variadic(ps) /\ \E i \in 1..Len(m.b) : m.b[i] = "__VA_ARGS__" THEN {"NonVariadicVarArgs"} ELSE {})
            \cup (IF ArityBad(ps, args) THEN {"FnMacroArgumentError"} ELSE {})
  IN IF es = {} THEN Res(<<>>)
     ELSE IF Cardinality(es) > 1 THEN Err("Several", "")
     ELSE IF es = {"FnMacroArgumentError"}
          THEN Err("FnMacroArgumentError", name \o "/" \o ToString(Required(ps)) \o "/" \o ToString(Len(args)))
     ELSE Err(CHOOSE e \in es : TRUE, "")

(* complete macro replacement of todo; out is what has already been emitted *)
Scan(env, out, todo) ==
  IF todo = <<>> THEN Res(out)
  ELSE LET x == todo[1] IN
  IF ~Plain(x) \/ x.t \notin DOMAIN env \/ x.t \in x.hs THEN Scan(env, Append(out, x), Tail(todo))
  ELSE LET m == env[x.t] IN
  IF m.k = "v" THEN
    LET r == SubstVar(m) IN
    IF Bad(r) THEN r ELSE Scan(env, out, AddHs(r.ts, x.hs \cup {x.t}) \o Tail(todo))
  ELSE IF Len(todo) < 2 \/ ~Plain(todo[2]) \/ todo[2].t # "(" THEN Scan(env, Append(out, x), Tail(todo))
  ELSE LET c == Collect(todo, 2, 0, <<>>, <<>>) IN
    IF ~c.ok THEN Skip                                        \* unterminated invocation
    ELSE IF todo[2].hs # todo[c.close].hs THEN Skip             \* "(" and ")" from different replacement lists
    ELSE LET e == CallError(x.t, m, c.args) IN
      IF Bad(e) THEN e
      ELSE IF \E i \in 1..Len(c.args) : HasVa(c.args[i]) THEN Skip
      ELSE LET r == SubstFn(env, m, c.args) IN
        IF Bad(r) THEN r
        ELSE Scan(env, out, AddHs(r.ts, (x.hs \cap todo[c.close].hs) \cup {x.t}) \o SubSeq(todo, c.close + 1, Len(todo)))

------------------------------------------------------------------------------
(* the three public entry points *)

NotFound == Err("MacroNotFound", "")

ExpandTokens(env, ts) ==
  LET r == SubstVar([b |-> ts]) IN IF Bad(r) THEN r ELSE Scan(env, <<>>, r.ts)

ExpandVar(env, name) ==
  IF name \notin DOMAIN env \/ env[name].k # "v" THEN NotFound
  ELSE LET r == SubstVar(env[name]) IN IF Bad(r) THEN r ELSE Scan(env, <<>>, AddHs(r.ts, {name}))

\* symbolic: placeholders for the parameters
SymArgs(ps) == [i \in 1..Len(ps) |-> <<IF ps[i] = "..." THEN SymVa(i - 1) ELSE Sym(i - 1)>>]

ExpandFn(env, name) ==
  IF name \notin DOMAIN env \/ env[name].k # "f" THEN NotFound
  ELSE LET m == env[name] ps == Params(m.a) e == CallError(name, m, SymArgs(ps)) IN
    IF Bad(e) THEN e
    ELSE LET r == SubstFn(env, m, SymArgs(ps)) IN
      IF Bad(r) THEN r ELSE Scan(env, <<>>, AddHs(r.ts, {name}))

------------------------------------------------------------------------------
(* comparison with an observed result *)

RECURSIVE MatchPat(_, _)
MatchPat(p, o) ==
  IF p = <<>> THEN o = <<>>
  ELSE IF p[1] = 96 THEN MatchPat(Tail(p), o) \/ (o # <<>> /\ o[1] = 32 /\ MatchPat(Tail(p), Tail(o)))
  ELSE o # <<>> /\ o[1] = p[1] /\ MatchPat(Tail(p), Tail(o))

SameOut(o, x) ==
  IF x.s \in {"y", "v"} THEN o.k = "arg" /\ "$" \o ToString(o.v) \o "$" = x.t
  ELSE LET t == Tok(x.t) IN
    IF t.k = "str" THEN o.k = "str" /\ o.p = t.p /\ (t.dom => MatchPat(t.v, o.v))
    ELSE SameTok(o, x.t)

NoCm(ots) == SelectSeq(ots, LAMBDA o : o.k # "cm")

Unrepresentable(x) == Plain(x) /\ LET t == Tok(x.t) IN t.k = "bad"
OutOfDomain(x) == Plain(x) /\ LET t == Tok(x.t) IN t.k # "bad" /\ ~t.dom
\* a pasted or source literal the library need not accept (out-of-range escapes and the like)

(* verdict on an observed outcome r (harness record) given the specified result x *)
(* "ok", "open" (nothing is specified), or a description of the mismatch           *)
Judge(r, x, exactErr) ==
  IF r.s = "panic" \/ r.s = "crash" THEN "panic"
  ELSE IF x.sk THEN "open"
  ELSE IF x.err # "" THEN
    IF r.s = "ok" THEN "bad:expected error " \o x.err
    ELSE IF exactErr /\ x.err = "Several" THEN (IF r.e \in Several THEN "ok" ELSE "bad:expected another error")
    ELSE IF exactErr /\ r.e # x.err THEN "bad:expected error " \o x.err
    ELSE IF exactErr /\ x.err = "FnMacroArgumentError" /\ r.d # x.d THEN "bad:expected " \o x.d
    ELSE "ok"
  ELSE IF \E i \in 1..Len(x.ts) : Unrepresentable(x.ts[i]) THEN (IF r.s = "err" THEN "ok" ELSE "bad:accepted an invalid token")
  ELSE IF \E i \in 1..Len(x.ts) : OutOfDomain(x.ts[i]) THEN "open"
  ELSE IF r.s # "ok" THEN "bad:unexpected error"
  ELSE LET o == NoCm(r.t) IN
    IF Len(o) = Len(x.ts) /\ \A i \in 1..Len(o) : SameOut(o[i], x.ts[i]) THEN "ok" ELSE "bad:different tokens"

=============================================================================
