-------------------------------- MODULE RSem --------------------------------
(***************************************************************************)
(* What a piece of generated Rust does: an evaluator over the syntax tree  *)
(* the Rust parser builds from the emitted text, on the same store and     *)
(* with the same effects as CSem.  "stuck": the Rust compiler would reject *)
(* it, or it would not do what its text says; "ill": its types do not     *)
(* match; "open": not modelled.                                            *)
(* An unsuffixed literal has the type "?": it takes on the type of what it *)
(* meets and is a mathematical integer until then.                         *)
(***************************************************************************)
EXTENDS CSem

Stuck(S, w) == [s |-> "stuck", v |-> [k |-> w], S |-> S]
Ill(S, w) == [s |-> "ill", v |-> [k |-> w], S |-> S]
Ctl(c, S) == [s |-> c, v |-> VV, S |-> S]

RECURSIVE LastSeg(_, _)
\* what follows the last ":" or blank
LastSeg(s, i) == IF i = 0 THEN s ELSE IF SubSeq(s, i, i) \in {":", " "} THEN SubSeq(s, i + 1, Len(s)) ELSE LastSeg(s, i - 1)
Seg(s) == LastSeg(s, Len(s))

RustNames ==
  ("c_char" :> "char") @@ ("c_schar" :> "schar") @@ ("c_uchar" :> "uchar") @@ ("c_short" :> "short") @@ ("c_ushort" :> "ushort") @@
  ("c_int" :> "int") @@ ("c_uint" :> "uint") @@ ("c_long" :> "long") @@ ("c_ulong" :> "ulong") @@ ("c_longlong" :> "llong") @@
  ("c_ulonglong" :> "ullong") @@ ("c_size_t" :> "size_t") @@ ("c_ssize_t" :> "ssize_t") @@ ("usize" :> "size_t") @@ ("isize" :> "ssize_t") @@
  ("i8" :> "schar") @@ ("u8" :> "uchar") @@ ("i16" :> "short") @@ ("u16" :> "ushort") @@ ("i32" :> "int") @@ ("u32" :> "uint") @@
  ("i64" :> "llong") @@ ("u64" :> "ullong") @@ ("f32" :> "float") @@ ("f64" :> "double") @@ ("bool" :> "bool") @@ ("c_void" :> "void") @@
  ("c_float" :> "float") @@ ("c_double" :> "double") @@ ("i128" :> "?") @@ ("u128" :> "?")

RECURSIVE RTy(_, _)
\* the C type a Rust type stands for; k |-> "none" when unknown
RTy(G, t) ==
  CASE t.k = "ptr" -> (LET u == RTy(G, t.t) IN IF u.k = "none" THEN u ELSE TP(IF t.mut THEN u ELSE Qual(u, TRUE, FALSE)))
    [] t.k = "void" -> TB("void")
    [] t.k = "path" -> (IF Has(G.rty, t.s) THEN G.rty[t.s] ELSE IF Seg(t.s) \in DOMAIN RustNames THEN TB(RustNames[Seg(t.s)]) ELSE [k |-> "none"])
    [] OTHER -> [k |-> "none"]

AnyT == [k |-> "any", c |-> FALSE, v |-> FALSE]
Bool(b) == VI("bool", IF b THEN ZI(1) ELSE Z0)
IsBool(v) == v.k = "i" /\ v.t = "bool"

\* a decimal literal (k |-> "d") becomes a float of p bits
Flt(v, n) == IF v.k = "d" THEN VF(n, LET f == FDec(v.d, v.e, Prec(n)) IN IF v.n THEN FNeg(f) ELSE f) ELSE v
FixF(v) == Flt(v, "double")

\* operands Rust would not combine: it converts nothing implicitly
\* G.len: the checker also runs code which relies on conversions, where they can only be between bool and int
IsInto(x) == x.k = "mcall" /\ x.m = "into" /\ Len(x.a) = 0
Lenient(G, v) == G.len /\ v.k = "i" /\ v.t \in {"bool", "int", "?"}
RIll(G, op, a, b) ==
  CASE Lenient(G, a) /\ Lenient(G, b) -> FALSE
    [] a.k = "i" /\ b.k = "i" /\ op \in {"<<", ">>"} -> IsBool(a) \/ IsBool(b)
    [] a.k = "i" /\ b.k = "i" /\ op \in {"&&", "||"} -> FALSE
    [] a.k = "i" /\ b.k = "i" -> (IF a.t = b.t THEN a.t = "bool" /\ op \notin CmpOps \cup {"&", "|", "^"}
                                  ELSE IF "?" \in {a.t, b.t} THEN "bool" \in {a.t, b.t} ELSE TRUE)
    [] a.k = "f" /\ b.k = "f" -> a.t # b.t
    [] a.k = "d" \/ b.k = "d" -> (a.k \notin {"d", "f"} \/ b.k \notin {"d", "f"})
    [] a.k = "p" /\ b.k = "p" -> op \notin CmpOps
    [] OTHER -> a.k # b.k

\* an unsuffixed literal that does not fit the type it gets: Rust rejects it, C converts
RWide(G, op, a, b) == \/ (a.k = "d" /\ b.k = "f" /\ b.t = "float") \/ (b.k = "d" /\ a.k = "f" /\ a.t = "float")      \* C computes with double
                      \/ a.k = "i" /\ b.k = "i" /\ op \notin {"<<", ">>", "&&", "||"} /\ a.t # b.t /\
                         ((a.t = "?" /\ ~FitsTy(G.lw, a.v, b.t)) \/ (b.t = "?" /\ ~FitsTy(G.lw, b.v, a.t)))
RTyName(a, b) == IF a = "?" THEN b ELSE IF b = "?" THEN a ELSE IF a = b THEN a ELSE "?"
Wr(G, t, z) == IF t = "?" THEN z ELSE WrapTy(G.lw, z, t)

RBinOp(G, op, a0, b0) ==
  LET len == Lenient(G, a0) /\ Lenient(G, b0) /\ (a0.t # b0.t \/ op \notin CmpOps \cup {"&", "|", "^"})
      Up(v) == IF len /\ v.t = "bool" THEN [v EXCEPT !.t = "int"] ELSE v
      a == IF a0.k = "d" THEN (IF b0.k = "f" THEN Flt(a0, b0.t) ELSE FixF(a0)) ELSE Up(a0)
      b == IF b0.k = "d" THEN (IF a0.k = "f" THEN Flt(b0, a0.t) ELSE FixF(b0)) ELSE Up(b0)
  IN CASE a.k = "i" /\ b.k = "i" /\ op \in {"<<", ">>"} ->
            (IF b.v.n \/ ~ZIsSmall(b.v) \/ (IF a.t = "?" THEN ZSmall(b.v) > 127 ELSE ZSmall(b.v) >= Width(G.lw, a.t)) THEN <<>>
             ELSE IF op = "<<" THEN <<VI(a.t, Wr(G, a.t, ZMul(a.v, ZMk(FALSE, NPow2(ZSmall(b.v))))))>>
             ELSE <<VI(a.t, ZFloorShr(a.v, ZSmall(b.v)))>>)
       [] a.k = "i" /\ b.k = "i" ->
            (LET t == RTyName(a.t, b.t) IN
             CASE op \in CmpOps -> <<Bool(CmpHolds(op, ZCmp(a.v, b.v)))>>
               [] op = "&&" -> <<Bool(a.v # Z0 /\ b.v # Z0)>>
               [] op = "||" -> <<Bool(a.v # Z0 \/ b.v # Z0)>>
               [] op = "+" -> <<VI(t, Wr(G, t, ZAdd(a.v, b.v)))>>
               [] op = "-" -> <<VI(t, Wr(G, t, ZSub(a.v, b.v)))>>
               [] op = "*" -> <<VI(t, Wr(G, t, ZMul(a.v, b.v)))>>
               [] op = "/" -> IF b.v = Z0 THEN <<>> ELSE <<VI(t, Wr(G, t, ZDiv(a.v, b.v)))>>
               [] op = "%" -> IF b.v = Z0 THEN <<>> ELSE <<VI(t, ZRem(a.v, b.v))>>
               [] op \in {"&", "|", "^"} -> <<VI(t, Wr(G, t, ZBits(op, a.v, b.v, 136)))>>
               [] OTHER -> <<>>)
       [] a.k = "f" /\ b.k = "f" ->
            (LET t == IF FRank(a.t) >= FRank(b.t) THEN a.t ELSE b.t
                 p == Prec(t)
             IN CASE op \in CmpOps -> <<Bool(CmpHolds(op, FCmp(a.f, b.f)))>>
                  [] op = "+" -> <<VF(t, FAdd(a.f, b.f, p))>>
                  [] op = "-" -> <<VF(t, FAdd(a.f, FNeg(b.f), p))>>
                  [] op = "*" -> <<VF(t, FMul(a.f, b.f, p))>>
                  [] op = "/" -> IF b.f.m = Z0 THEN <<>> ELSE <<VF(t, FDiv(a.f, b.f, p))>>
                  [] OTHER -> <<>>)
       [] a.k = "p" \/ b.k = "p" -> (LET r == BinOp(G, op, a, b) IN IF r = <<>> THEN r ELSE IF r[1].k = "i" /\ op \in CmpOps THEN <<Bool(r[1].v # Z0)>> ELSE r)
       [] OTHER -> <<>>

\* a value that may not be used where t is expected
IllAs(G, v, t) == CASE Lenient(G, v) /\ t.k = "b" /\ t.n \in {"int", "bool"} -> FALSE
                 [] v.k = "i" -> t.k # "b" \/ t.n \in FltTys \/ (t.n = "bool" /\ v.t # "bool") \/ (v.t # "?" /\ v.t # t.n)
                 [] v.k = "f" -> t.k # "b" \/ (t.n # v.t /\ ~(t.n = "ldouble" /\ v.t = "double"))
                 [] v.k = "d" -> t.k # "b" \/ t.n \notin FltTys
                 [] v.k = "p" -> t.k # "p"
                 [] OTHER -> FALSE

RRead(G, l, S) == IF l.t.k = "any" THEN (IF Has(S.st, Loc(l.o, l.x)) THEN Out(S.st[Loc(l.o, l.x)], S) ELSE OpenAt(S))
                  ELSE ReadAt(G, l, S)
RWrite(G, l, v0, S) ==
  LET v == IF v0.k = "d" THEN (IF l.t.k = "b" /\ l.t.n \in FltTys THEN Flt(v0, l.t.n) ELSE FixF(v0)) ELSE v0 IN
  IF l.t.k = "any" THEN Out(v, [S EXCEPT !.st = Put(@, Loc(l.o, l.x), v)])
  ELSE IF IllAs(G, v, l.t) THEN Ill(S, "assignment of another type")
  ELSE WriteAt(G, l, v, S)
Plainly(t) == IF t.k \in {"b", "n", "t", "p"} THEN [t EXCEPT !.c = FALSE, !.v = FALSE] ELSE t

ArgName(s) == IF Len(s) > 5 /\ SubSeq(s, 1, 5) = "ARG__" THEN SubSeq(s, 6, Len(s)) ELSE s
\* the type of an expression as far as it shows: "?" an unsuffixed integer, "d" a float literal, "" unknown
RUnify(a, b) == IF a = b THEN a ELSE IF a \in {"", "ill"} \/ b \in {"", "ill"} THEN (IF "ill" \in {a, b} THEN "ill" ELSE "")
                ELSE IF a = "?" /\ b \in IntTys \ {"bool"} THEN b ELSE IF b = "?" /\ a \in IntTys \ {"bool"} THEN a
                ELSE IF a = "d" /\ b \in FltTys THEN b ELSE IF b = "d" /\ a \in FltTys THEN a ELSE "ill"
RECURSIVE RKind(_, _, _)
RKind(G, x, S) ==
  CASE x.k = "int" -> (IF x.x \in {"", "i128", "u128"} THEN "?" ELSE IF Has(RustNames, x.x) THEN RustNames[x.x] ELSE "")
    [] x.k = "float" -> "d"
    [] x.k = "bool" -> "bool"
    [] x.k = "path" -> (LET t == IF Has(S.env, x.s) THEN S.env[x.s].t ELSE NoTy IN
                        IF Has(G.rconsts, x.s) THEN G.rconsts[x.s].t ELSE IF t.k = "b" THEN t.n ELSE IF t.k = "p" THEN "ptr" ELSE "")
    [] x.k = "cast" -> (LET t == RTy(G, x.t) IN IF t.k = "b" THEN t.n ELSE IF t.k = "p" THEN "ptr" ELSE "")
    [] x.k = "un" /\ x.op # "*" -> RKind(G, x.e, S)
    [] x.k = "bin" /\ x.op \in CmpOps \cup {"&&", "||"} -> "bool"
    [] x.k = "bin" /\ x.op \in {"<<", ">>"} -> (IF "bool" \in {RKind(G, x.l, S), RKind(G, x.r, S)} THEN "ill" ELSE RKind(G, x.l, S))
    [] x.k = "bin" /\ x.op \in {"+", "-", "*", "/", "%", "&", "|", "^"} ->
         (LET k == RUnify(RKind(G, x.l, S), RKind(G, x.r, S)) IN IF k = "bool" /\ x.op \notin {"&", "|", "^"} THEN "ill" ELSE k)
    [] x.k = "if" /\ x.e.k # "none" -> RUnify(RKind(G, x.t, S), RKind(G, x.e, S))
    [] x.k = "block" /\ Len(x.s) = 1 -> (IF x.s[1].k = "expr" /\ ~x.s[1].semi THEN RKind(G, x.s[1].e, S) ELSE "")
    [] x.k = "call" /\ x.f.k = "path" -> (IF EndsWith(x.f.s, "mem::size_of") THEN "size_t" ELSE LET g == ArgName(x.f.s) IN IF Has(G.fns, g) THEN (IF G.fns[g].r.k = "b" THEN G.fns[g].r.n ELSE "") ELSE "")
    [] OTHER -> ""

RECURSIVE REv(_, _, _)
RECURSIVE RLv(_, _, _)
RECURSIVE RBlock(_, _, _, _)
RECURSIVE RLoop(_, _, _)
RECURSIVE RArgs(_, _, _, _)
RECURSIVE RLets(_, _, _, _, _, _)

NoPlaceR(r, S) == [s |-> IF r.s = "ok" THEN "open" ELSE r.s, l |-> [o |-> Null, x |-> 0, t |-> NoTy], S |-> S, v |-> r.v]
RPlace(o, x, t, S) == [s |-> "ok", l |-> [o |-> o, x |-> x, t |-> t], S |-> S, v |-> VV]

(* asm!: operands in order of appearance are numbered, except those in explicit registers *)
RAsmRec == [ok |-> TRUE, ops |-> <<>>, pl |-> <<>>, slot |-> <<>>, regs |-> {}, why |-> ""]
RECURSIVE RAsmOps(_, _, _, _, _)
RAsmOps(G, os, i, R, S) ==
  IF i > Len(os) \/ ~R.ok THEN R
  ELSE LET o == os[i]
           Fail(w) == [R EXCEPT !.ok = FALSE, !.why = w]
       IN IF o.x THEN (IF o.dir = "out" /\ o.e.k = "wild" THEN RAsmOps(G, os, i + 1, [R EXCEPT !.regs = @ \cup {o.rc}], S) ELSE Fail("explicit register"))
          ELSE LET r == IF o.dir = "out" THEN RLv(G, o.e, S) ELSE REv(G, o.e, S)
                   l == IF o.dir = "in" THEN <<>> ELSE <<RLv(G, IF o.o.k = "none" THEN o.e ELSE o.o, S)>>
               IN IF r.s # "ok" THEN Fail("operand " \o (IF Has(r.v, "k") THEN r.v.k ELSE r.s))
                  ELSE IF r.S.tr # S.tr \/ r.S.st # S.st THEN Fail("operand with effects")
                  ELSE IF o.dir \notin {"in", "out", "inout"} THEN Fail("direction " \o o.dir)
                  ELSE IF l # <<>> /\ l[1].s # "ok" THEN Fail("place")
                  ELSE RAsmOps(G, os, i + 1, [R EXCEPT !.ops = Append(@, [dir |-> o.dir, cls |-> o.reg, v |-> IF o.dir = "out" THEN "-" ELSE Show(FixF(r.v))]),
                                                       !.pl = Append(@, IF l = <<>> THEN <<>> ELSE <<l[1].l>>), !.slot = Append(@, Len(@) + 1)], S)
RAsm(G, x, S) ==
  LET t == RTpl(x.tpl, 1)
      R == RAsmOps(G, x.ops, 1, RAsmRec, S)
      opts == {x.opts[i] : i \in 1..Len(x.opts)}
      g == x.n = "global_asm"
  IN IF ~x.parsed \/ ~t.ok THEN Stuck(S, "malformed assembly")
     ELSE IF ~R.ok THEN (IF StartsWith(R.why, "operand name") THEN OpenWhy(S, R.why) ELSE Stuck(S, "assembly: " \o R.why))
     ELSE IF ~RefsOk(t.p, R.slot) THEN Stuck(S, "assembly refers to an operand that is not there")
     ELSE IF opts \ {"att_syntax", "nomem", "preserves_flags"} # {} THEN Stuck(S, "assembly option")
     ELSE IF x.abi /\ \E i \in 1..Len(R.ops) : R.ops[i].dir # "in" THEN Stuck(S, "clobber_abi needs explicit registers for outputs")
     ELSE IF g /\ (x.ops # <<>> \/ opts \ {"att_syntax"} # {}) THEN Stuck(S, "global assembly with operands or options")
     ELSE LET c == Canon(t.p, R.slot, Len(R.ops))
              txt == AsmText(c, R, "att_syntax" \in opts, IF g THEN " global" ELSE AsmFlags(R.regs, "nomem" \notin opts, "preserves_flags" \notin opts))
              wr == SelectSeq(c.ord, LAMBDA k : R.pl[k] # <<>>)
              all == wr \o SelectSeq(c.rest, LAMBDA k : R.pl[k] # <<>>)
              S1 == [S EXCEPT !.tr = @ \o <<txt>>]
              W[i \in 0..Len(all)] == IF i = 0 THEN Out(VV, S1)
                                      ELSE IF W[i - 1].s # "ok" THEN W[i - 1]
                                      ELSE WriteAt(G, R.pl[all[i]][1], AsmVal(S1, IF i > Len(wr) THEN 0 ELSE i), W[i - 1].S)
          IN IF W[Len(all)].s # "ok" THEN OpenAt(S) ELSE Out(VV, W[Len(all)].S)

RLv(G, x, S) ==
  CASE x.k = "path" -> (IF Has(S.env, x.s) THEN RPlace(S.env[x.s].o, 0, Plainly(S.env[x.s].t), S) ELSE NoPlaceR(OpenWhy(S, "name " \o x.s), S))
    [] x.k = "un" /\ x.op = "*" -> (LET p == REv(G, x.e, S) IN
                                    IF p.s # "ok" THEN NoPlaceR(p, S)
                                    ELSE IF p.v.k # "p" THEN NoPlaceR(Stuck(S, "dereference of something that is no pointer"), S)
                                    ELSE RPlace(p.v.o, p.v.x, Plainly(p.v.t), p.S))
    [] x.k = "field" -> (LET l == RLv(G, x.e, S) IN
                         IF l.s # "ok" THEN l
                         ELSE LET f == ArgName(x.f)
                                  key == IF l.l.t.k \in {"n", "t"} THEN l.l.t.n \o "." \o f ELSE "" IN
                              IF Has(G.fields, key) THEN RPlace(Loc(l.l.o, l.l.x) \o "." \o f, 0, Plainly(G.fields[key]), l.S)
                              ELSE NoPlaceR(Stuck(S, "no such field " \o key), S))
    [] x.k = "block" -> (LET r == REv(G, x, S) IN NoPlaceR(Stuck(S, "assignment to a temporary"), S))
    [] OTHER -> NoPlaceR(Stuck(S, "not a place"), S)

RArgs(G, as, i, S) ==
  IF i > Len(as) THEN [s |-> "ok", vs |-> <<>>, S |-> S, v |-> VV]
  ELSE LET a == REv(G, as[i], S) IN
    IF a.s # "ok" THEN [s |-> a.s, vs |-> <<>>, S |-> S, v |-> a.v]
    ELSE LET b == RArgs(G, as, i + 1, a.S) IN IF b.s # "ok" THEN b ELSE [b EXCEPT !.vs = <<FixF(a.v)>> \o @]

RCast(G, v0, t, S) ==
  LET c == RTy(G, t) v == IF v0.k = "d" /\ c.k = "b" /\ c.n \in FltTys THEN Flt(v0, c.n) ELSE FixF(v0) IN
  IF c.k = "none" THEN OpenWhy(S, "cast to " \o t.s)
  ELSE IF c.k = "b" /\ c.n = "?" THEN (IF v.k = "i" THEN Out(VI("?", v.v), S) ELSE OpenAt(S))
  ELSE IF c.k = "b" /\ c.n = "bool" /\ ~IsBool(v) THEN Ill(S, "cast to bool")
  ELSE IF IsBool(v) /\ (c.k # "b" \/ c.n \in FltTys) THEN Ill(S, "cast of bool")
  ELSE IF v.k \in {"v", "g"} THEN Stuck(S, "cast of no scalar")
  ELSE IF v.k = "f" /\ c.k = "p" THEN Ill(S, "cast of float to pointer")
  ELSE IF v.k = "s" THEN Out(v, S)
  ELSE LET r == Conv(G, v, c) IN IF r = <<>> THEN OpenWhy(S, "cast") ELSE Out(r[1], S)

RCompound == {"+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="}

REv(G, x, S) ==
  CASE x.k = "int" -> (IF x.x \in {"", "i128", "u128"} THEN Out(VI("?", ZMk(x.neg, x.v)), S)
                       ELSE IF Has(RustNames, x.x) THEN
                         (IF RustNames[x.x] \in FltTys THEN Out(VF(RustNames[x.x], FInt(ZMk(x.neg, x.v), Prec(RustNames[x.x]))), S)
                          ELSE IF FitsTy(G.lw, ZMk(x.neg, x.v), RustNames[x.x]) THEN Out(VI(RustNames[x.x], ZMk(x.neg, x.v)), S)
                          ELSE OpenWhy(S, "literal out of range"))     \* also -128i8, whose sign is an operator
                       ELSE OpenWhy(S, "suffix"))
    [] x.k = "float" -> (IF x.e \in (0 - 60)..60 THEN Out([k |-> "d", d |-> x.d, e |-> x.e, n |-> FALSE], S) ELSE OpenWhy(S, "float"))
    [] x.k \in {"char", "byte"} -> Out(VI(IF x.k = "byte" THEN "uchar" ELSE "?", ZI(x.v)), S)
    [] x.k = "bool" -> Out(Bool(x.v), S)
    [] x.k = "bstr" -> Out([k |-> "s", u |-> x.v], S)
    [] x.k = "path" -> (IF Has(S.env, x.s) THEN RRead(G, [o |-> S.env[x.s].o, x |-> 0, t |-> Plainly(S.env[x.s].t)], S)
                        ELSE IF Has(G.rconsts, x.s) THEN Out(G.rconsts[x.s], S)
                        ELSE IF EndsWith(x.s, "::MAX") THEN
                          (LET t == Seg(SubSeq(x.s, 1, Len(x.s) - 5)) IN
                           IF t \in DOMAIN RustNames THEN
                             (LET n == RustNames[t] w == Width(G.lw, n) IN Out(VI(n, ZMk(FALSE, NSub(NPow2(IF Signed(n) THEN w - 1 ELSE w), <<1>>))), S))
                           ELSE OpenWhy(S, "MAX"))
                        ELSE OpenWhy(S, "name " \o x.s))
    [] x.k = "un" /\ x.op = "*" -> (LET l == RLv(G, x, S) IN IF l.s = "ok" THEN RRead(G, l.l, l.S) ELSE [s |-> l.s, v |-> l.v, S |-> S])
    [] x.k = "un" ->
         (LET r == REv(G, x.e, S) IN
          IF r.s # "ok" THEN r
          ELSE CASE G.len /\ x.op = "!" /\ RKind(G, x.e, S) \in {"ill", ""} -> OpenWhy(S, "complement of mixed operands")
                 [] x.op = "!" /\ IsBool(r.v) -> Out(Bool(r.v.v = Z0), r.S)
                 [] x.op = "!" /\ r.v.k = "i" -> Out(VI(r.v.t, Wr(G, r.v.t, ZSub(ZI(0 - 1), r.v.v))), r.S)
                 [] x.op = "-" /\ r.v.k = "i" /\ r.v.t # "?" /\ ~Signed(r.v.t) -> Ill(S, "negated unsigned")
                 [] x.op = "-" /\ r.v.k = "i" -> Out(VI(r.v.t, Wr(G, r.v.t, ZNeg(r.v.v))), r.S)
                 [] x.op = "-" /\ r.v.k = "f" -> Out(VF(r.v.t, FNeg(r.v.f)), r.S)
                 [] x.op = "-" /\ r.v.k = "d" -> Out([r.v EXCEPT !.n = ~@], r.S)
                 [] OTHER -> Ill(S, "unary " \o x.op))
    [] x.k = "bin" /\ x.op \in RCompound ->
         (LET r == REv(G, x.r, S) IN                                             \* the right operand comes first for primitive types
          IF r.s # "ok" THEN r
          ELSE LET l == RLv(G, x.l, r.S) IN
            IF l.s # "ok" THEN [s |-> l.s, v |-> l.v, S |-> S]
            ELSE LET o == RRead(G, l.l, l.S) IN
              IF o.s # "ok" THEN o
              ELSE IF RIll(G, AsgOp(x.op), o.v, r.v) THEN Ill(S, "operands of " \o x.op)
              ELSE IF RWide(G, AsgOp(x.op), o.v, r.v) THEN OpenWhy(S, "literal out of range")
              ELSE LET v == RBinOp(G, AsgOp(x.op), o.v, r.v) IN
                IF v = <<>> THEN Stuck(S, x.op) ELSE LET w == RWrite(G, l.l, v[1], o.S) IN IF w.s = "ok" THEN Out(VV, w.S) ELSE w)
    [] x.k = "bin" /\ x.op \in {"&&", "||"} ->
         (LET a == REv(G, x.l, S) IN
          IF a.s # "ok" THEN a
          ELSE IF ~IsBool(a.v) THEN Stuck(S, "operand of " \o x.op)
          ELSE IF (a.v.v # Z0) = (x.op = "||") THEN a
          ELSE LET b == REv(G, x.r, a.S) IN IF b.s # "ok" THEN b ELSE IF IsBool(b.v) THEN b ELSE Stuck(S, "operand of " \o x.op))
    [] x.k = "bin" -> (LET a == REv(G, x.l, S) IN
                       IF a.s # "ok" THEN a
                       ELSE LET b == REv(G, x.r, a.S) IN
                         IF b.s # "ok" THEN b
                         ELSE IF RIll(G, x.op, a.v, b.v) THEN Ill(S, "operands of " \o x.op)
                         ELSE IF RWide(G, x.op, a.v, b.v) THEN OpenWhy(S, "literal out of range")
                         ELSE LET v == RBinOp(G, x.op, a.v, b.v) IN IF v = <<>> THEN Stuck(S, "operands of " \o x.op) ELSE Out(v[1], b.S))
    [] x.k = "assign" -> (LET r == REv(G, x.r, S) IN
                          IF r.s # "ok" THEN r
                          ELSE LET l == RLv(G, x.l, r.S) IN
                            IF l.s # "ok" THEN [s |-> l.s, v |-> l.v, S |-> S]
                            ELSE LET w == RWrite(G, l.l, r.v, l.S) IN IF w.s = "ok" THEN Out(VV, w.S) ELSE w)
    [] x.k = "cast" /\ x.t.k = "ptr" /\ x.t.t.k = "path" /\ x.t.t.s = "_" -> REv(G, x.e, S)
    [] x.k = "cast" -> (LET r == REv(G, x.e, S) IN IF r.s # "ok" THEN r ELSE RCast(G, r.v, x.t, r.S))
    [] x.k = "field" -> (LET l == RLv(G, x, S) IN IF l.s = "ok" THEN RRead(G, l.l, l.S) ELSE [s |-> l.s, v |-> l.v, S |-> S])
    [] x.k = "block" -> (LET r == RBlock(G, x.s, 1, S) IN [r EXCEPT !.S.env = S.env])
    [] x.k = "if" -> (LET c == REv(G, x.c, S) IN
                      IF c.s # "ok" THEN c
                      ELSE IF ~IsBool(c.v) /\ ~Lenient(G, c.v) THEN Stuck(S, "condition is no bool")
                      ELSE IF x.e.k = "none" THEN (IF c.v.v # Z0 THEN (LET r == REv(G, x.t, c.S) IN IF r.s = "ok" THEN Out(VV, r.S) ELSE r) ELSE Out(VV, c.S))
                      ELSE LET r == REv(G, IF c.v.v # Z0 THEN x.t ELSE x.e, c.S)
                               k == RUnify(RKind(G, x.t, c.S), RKind(G, x.e, c.S))
                           IN IF r.s # "ok" THEN r
                              ELSE IF k = "ill" /\ ~Lenient(G, r.v) THEN Ill(S, "branches of different types")
                              ELSE IF r.v.k = "i" /\ r.v.t = "?" /\ k \in IntTys THEN Out(VI(k, Wr(G, k, r.v.v)), r.S)
                              ELSE IF r.v.k = "d" /\ k \in FltTys THEN Out(Flt(r.v, k), r.S) ELSE r)
    [] x.k = "loop" -> RLoop(G, x, S)
    [] x.k = "while" -> OpenWhy(S, "while")
    [] x.k = "break" -> Ctl("brk", S)
    [] x.k = "continue" -> Ctl("cont", S)
    [] x.k = "asm" -> RAsm(G, x, S)
    [] x.k = "mac" -> (IF x.n \in {"addr_of_mut", "addr_of"} /\ x.parsed /\ Len(x.a) = 1 THEN
                         (LET l == RLv(G, x.a[1], S) IN IF l.s = "ok" THEN Out(VP(l.l.t, l.l.o, l.l.x), l.S) ELSE [s |-> l.s, v |-> l.v, S |-> S])
                       ELSE OpenWhy(S, "macro " \o x.n))
    [] x.k = "mcall" ->
         (IF x.m = "into" /\ Len(x.a) = 0 THEN (LET r == REv(G, x.e, S) IN IF r.s # "ok" THEN r ELSE IF r.v.k = "i" THEN Out(VI("?", r.v.v), r.S) ELSE Out(FixF(r.v), r.S))
          ELSE IF x.m = "as_ptr" /\ Len(x.a) = 0 THEN REv(G, x.e, S)
          ELSE IF x.m \in {"add", "sub", "offset", "wrapping_add", "wrapping_sub"} /\ Len(x.a) = 1 THEN
            (LET p == REv(G, x.e, S) IN
             IF p.s # "ok" THEN p
             ELSE LET n == REv(G, x.a[1], p.S) IN
               IF n.s # "ok" THEN n
               ELSE IF p.v.k # "p" \/ n.v.k # "i" THEN Stuck(S, "pointer arithmetic")
               ELSE LET v == BinOp(G, IF x.m \in {"sub", "wrapping_sub"} THEN "-" ELSE "+", p.v, n.v) IN IF v = <<>> THEN OpenAt(S) ELSE Out(v[1], n.S))
          ELSE OpenWhy(S, "method " \o x.m))
    [] x.k = "ref" /\ x.mut ->
         (LET l == RLv(G, x.e, S) IN IF l.s = "ok" THEN Out(VP(l.l.t, l.l.o, l.l.x), l.S) ELSE [s |-> l.s, v |-> l.v, S |-> S])
    [] x.k = "ref" -> REv(G, x.e, S)
    [] x.k = "call" /\ x.f.k = "path" ->
         (LET as == RArgs(G, x.a, 1, S)
              f == x.f.s
          IN IF as.s # "ok" THEN [s |-> as.s, v |-> as.v, S |-> S]
             ELSE CASE EndsWith(f, "ptr::null") \/ EndsWith(f, "ptr::null_mut") -> Out(VP(TB("void"), Null, 0), as.S)
                    [] EndsWith(f, "mem::size_of") /\ Len(x.f.targs) = 1 ->
                         (LET t == RTy(G, x.f.targs[1]) IN IF t.k = "none" THEN OpenWhy(S, "size") ELSE Out(VI("size_t", ZI(SizeOf(G.lw, t))), as.S))
                    [] EndsWith(f, "ptr::read_volatile") /\ Len(x.a) = 1 ->
                         (IF as.vs[1].k # "p" THEN Stuck(S, "volatile read") ELSE ReadAt(G, [o |-> as.vs[1].o, x |-> as.vs[1].x, t |-> Qual(Plainly(as.vs[1].t), FALSE, TRUE)], as.S))
                    [] EndsWith(f, "ptr::write_volatile") /\ Len(x.a) = 2 ->
                         (IF as.vs[1].k # "p" THEN Stuck(S, "volatile write")
                          ELSE LET w == WriteAt(G, [o |-> as.vs[1].o, x |-> as.vs[1].x, t |-> Qual(Plainly(as.vs[1].t), FALSE, TRUE)], as.vs[2], as.S) IN
                               IF w.s = "ok" THEN Out(VV, w.S) ELSE w)
                    [] OTHER ->
                         LET n == Len(as.vs)
                             g == ArgName(f)
                             conv == [i \in 1..n |-> IF Has(G.fns, g) THEN (IF i <= Len(G.fns[g].ps) THEN Conv(G, as.vs[i], G.fns[g].ps[i]) ELSE <<>>) ELSE <<as.vs[i]>>]
                         IN IF Has(G.fns, g) /\ Len(G.fns[g].ps) = n /\ \E i \in 1..n : ~(IsInto(x.a[i]) /\ as.vs[i].k \in {"i", "f", "d"}) /\ IllAs(G, as.vs[i], G.fns[g].ps[i]) THEN Ill(S, "arguments of " \o f)
                            ELSE IF (Has(G.fns, g) /\ Len(G.fns[g].ps) # n) \/ \E i \in 1..n : conv[i] = <<>> THEN Stuck(S, "arguments of " \o f)
                            ELSE CallRes(G, g, [i \in 1..n |-> conv[i][1]], as.S))
    [] OTHER -> OpenWhy(S, x.k)

RLoop(G, x, S) ==
  IF S.f = 0 THEN OpenWhy(S, "loop")
  ELSE LET b == REv(G, x.b, [S EXCEPT !.f = @ - 1]) IN
    CASE b.s = "brk" -> Out(VV, [b.S EXCEPT !.env = S.env])
      [] b.s \in {"ok", "cont"} -> RLoop(G, x, [b.S EXCEPT !.env = S.env])
      [] OTHER -> b

RLet(S, name, o, t, v) == Out(VV, [S EXCEPT !.env = Put(@, name, [t |-> t, o |-> o]), !.st = Put(@, Loc(o, 0), v), !.n = @ + 1])
\* let (n1, n2) = (e1, e2): all values come first
RLets(G, ns, es, i, vs, S) ==
  IF i <= Len(es) THEN (LET r == REv(G, es[i], S) IN IF r.s # "ok" THEN r ELSE RLets(G, ns, es, i + 1, Append(vs, r.v), r.S))
  ELSE LET j == i - Len(es) IN
       IF j > Len(ns) THEN Out(VV, S) ELSE RLets(G, ns, es, i + 1, vs, RLet(S, ns[j], ArgName(ns[j]) \o "#" \o ToString(S.n), AnyT, vs[j]).S)
RBlock(G, ss, i, S) ==
  IF i > Len(ss) THEN Out(VV, S)
  ELSE LET s == ss[i] IN
    CASE s.k = "expr" -> (LET r == REv(G, s.e, S) IN
                          IF r.s # "ok" THEN r
                          ELSE IF i = Len(ss) /\ ~s.semi THEN r ELSE RBlock(G, ss, i + 1, r.S))
      [] s.k = "lets" -> (LET r == RLets(G, s.ns, s.es, 1, <<>>, S) IN IF r.s # "ok" THEN r ELSE RBlock(G, ss, i + 1, r.S))
      [] s.k \in {"let", "const", "static"} ->
           (LET o == IF s.k = "static" THEN "static " \o s.n ELSE ArgName(s.n) \o "#" \o ToString(S.n)
                t == IF s.t.k = "none" THEN AnyT ELSE RTy(G, s.t)
                r == REv(G, s.e, S)
            IN IF s.k = "static" /\ Has(S.st, Loc(o, 0)) THEN RBlock(G, ss, i + 1, [S EXCEPT !.env = Put(@, s.n, [t |-> t, o |-> o])])
               ELSE IF r.s # "ok" THEN r
               ELSE IF s.n = "_" THEN RBlock(G, ss, i + 1, r.S)
               ELSE IF s.t.k = "ref" THEN RBlock(G, ss, i + 1, RLet(r.S, s.n, o, AnyT, r.v).S)
               ELSE IF t.k = "none" THEN OpenWhy(S, "let " \o s.n)
               ELSE IF t.k = "any" THEN RBlock(G, ss, i + 1, RLet(r.S, s.n, o, t, r.v).S)
               ELSE IF IllAs(G, r.v, t) THEN Ill(S, "let " \o s.n)
               ELSE LET v0 == IF r.v.k = "d" /\ t.k = "b" /\ t.n \in FltTys THEN Flt(r.v, t.n) ELSE FixF(r.v)
                        v == Conv(G, v0, t) IN
                    IF v = <<>> THEN Stuck(S, "let " \o s.n) ELSE RBlock(G, ss, i + 1, RLet(r.S, s.n, o, t, v[1]).S))
      [] OTHER -> OpenWhy(S, s.k)
=============================================================================
