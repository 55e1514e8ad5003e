------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Every expression tree of at most MaxOps operators, built one operator   *)
(* at a time, written with as few parentheses as the C grammar allows.     *)
(* Reading it back must give the tree, no pair of parentheses may be       *)
(* superfluous, and each text is handed to the driver, which fills in the  *)
(* operands ("#" a value, "#l" an object, "#p" a pointer, "#q" a pointer   *)
(* that can be modified, "#s" a pointer to a structure).                   *)
(***************************************************************************)
EXTENDS CSyn, Json

CONSTANTS MaxOps, Ops      \* Ops: names of the operators, see Nodes

Hole == [k |-> "id", n |-> "#"]
Obj == [k |-> "id", n |-> "#l"]
Ptr == [k |-> "id", n |-> "#p"]
PtrL == [k |-> "id", n |-> "#q"]
SPtr == [k |-> "id", n |-> "#s"]
Nm(x) == [k |-> "id", n |-> x]
VolInt == TP(Qual(TB("int"), FALSE, TRUE))
VolS == TP(Qual(TT("struct", "S"), FALSE, TRUE))
Bins == DOMAIN BinPrec \ {"&&", "||"}

\* the nodes an operator name stands for
Nodes(o) ==
  CASE o = "bin" -> {[k |-> "bin", op |-> p, l |-> Hole, r |-> Hole] : p \in Bins}
    [] o = "bin8" -> {[k |-> "bin", op |-> p, l |-> Hole, r |-> Hole] : p \in {"-", "/", "<<", "<", "!=", "&", "^", "|"}}
    [] o = "un" -> {[k |-> "un", op |-> p, e |-> Hole] : p \in {"+", "-", "!", "~"}}
    [] o = "neg" -> {[k |-> "un", op |-> "-", e |-> Hole]}
    [] o = "not" -> {[k |-> "un", op |-> "!", e |-> Hole]}
    [] o = "cast" -> {[k |-> "cast", t |-> TB("int"), e |-> Hole]}
    [] o = "cond" -> {[k |-> "cond", c |-> Hole, a |-> Hole, b |-> Hole]}
    [] o = "asg" -> {[k |-> "asg", op |-> p, l |-> Obj, r |-> Hole] : p \in AsgOps}
    [] o = "asg2" -> {[k |-> "asg", op |-> p, l |-> Obj, r |-> Hole] : p \in {"=", "-="}}
    [] o = "inc" -> {[k |-> "un", op |-> p, e |-> Obj] : p \in {"++", "--"}} \cup {[k |-> "post", op |-> p, e |-> Obj] : p \in {"++", "--"}}
    [] o = "idx" -> {[k |-> "idx", a |-> Ptr, i |-> Hole]}
    [] o = "der" -> {[k |-> "un", op |-> "*", e |-> [k |-> "bin", op |-> p, l |-> Ptr, r |-> Hole]] : p \in {"+", "-"}}
    [] o = "call" -> {[k |-> "call", f |-> [k |-> "id", n |-> "f"], as |-> <<Hole>>],
                      [k |-> "call", f |-> [k |-> "id", n |-> "g"], as |-> <<Hole, Hole>>]}
    [] o = "fld" -> {[k |-> "fld", e |-> [k |-> "id", n |-> "s"], f |-> "m", arrow |-> FALSE],
                     [k |-> "fld", e |-> [k |-> "id", n |-> "ps"], f |-> "n", arrow |-> TRUE]}
    [] o \in {"place", "read"} -> {[k |-> "un", op |-> "*", e |-> Ptr], [k |-> "idx", a |-> Ptr, i |-> Hole],
                                  [k |-> "fld", e |-> Nm("s"), f |-> "m", arrow |-> FALSE], [k |-> "fld", e |-> SPtr, f |-> "n", arrow |-> TRUE]}
    [] o = "vol" -> {[k |-> "un", op |-> "*", e |-> [k |-> "cast", t |-> VolInt, e |-> Ptr]], [k |-> "idx", a |-> [k |-> "cast", t |-> VolInt, e |-> Ptr], i |-> Hole],
                     [k |-> "fld", e |-> [k |-> "cast", t |-> VolS, e |-> SPtr], f |-> "m", arrow |-> TRUE]}
    [] o = "ptr" -> {[k |-> p, op |-> q, e |-> PtrL] : p \in {"un", "post"}, q \in {"++", "--"}}
                    \cup {[k |-> "bin", op |-> q, l |-> Ptr, r |-> Hole] : q \in {"+", "-"}} \cup {PtrL}
                    \cup {[k |-> "un", op |-> "&", e |-> Obj], [k |-> "cond", c |-> Hole, a |-> Ptr, b |-> Ptr],
                          [k |-> "asg", op |-> "+=", l |-> PtrL, r |-> Hole], [k |-> "asg", op |-> "=", l |-> PtrL, r |-> Ptr]}
    [] o = "plv" -> {[k |-> "un", op |-> "*", e |-> Nm("pp")], [k |-> "fld", e |-> Nm("s"), f |-> "r", arrow |-> FALSE], [k |-> "fld", e |-> SPtr, f |-> "r", arrow |-> TRUE]}
    [] o = "sptr" -> {[k |-> "un", op |-> "&", e |-> Nm("s")], [k |-> "fld", e |-> Nm("s"), f |-> "o", arrow |-> FALSE], [k |-> "fld", e |-> SPtr, f |-> "o", arrow |-> TRUE]}
HoleOf(o) == CASE o \in {"place", "vol"} -> Obj [] o = "ptr" -> Ptr [] o = "plv" -> PtrL [] o = "sptr" -> SPtr [] OTHER -> Hole

RECURSIVE Put1(_, _, _)
\* the trees that come from t by putting x into one of its holes h
Put1(t, h, x) ==
  CASE t = h -> {x}
    [] t.k \in {"bin", "asg"} -> {[t EXCEPT !.l = y] : y \in Put1(t.l, h, x)} \cup {[t EXCEPT !.r = y] : y \in Put1(t.r, h, x)}
    [] t.k \in {"un", "cast", "post", "fld"} -> {[t EXCEPT !.e = y] : y \in Put1(t.e, h, x)}
    [] t.k = "idx" -> {[t EXCEPT !.a = y] : y \in Put1(t.a, h, x)} \cup {[t EXCEPT !.i = y] : y \in Put1(t.i, h, x)}
    [] t.k = "cond" -> {[t EXCEPT !.c = y] : y \in Put1(t.c, h, x)} \cup {[t EXCEPT !.a = y] : y \in Put1(t.a, h, x)} \cup {[t EXCEPT !.b = y] : y \in Put1(t.b, h, x)}
    [] t.k = "call" -> UNION {{[t EXCEPT !.as[i] = y] : y \in Put1(t.as[i], h, x)} : i \in 1..Len(t.as)}
    [] OTHER -> {}

\* how tightly a node binds: 1 assignment, 2 conditional, 3.. binary, 13 unary, 14 postfix, 15 primary
Tight(t) == CASE t.k = "asg" -> 1 [] t.k = "cond" -> 2 [] t.k = "bin" -> 2 + BinPrec[t.op] [] t.k \in {"un", "cast"} -> 13 [] t.k \in {"idx", "call", "fld", "post"} -> 14 [] OTHER -> 15
RECURSIVE Text(_, _)
RECURSIVE Bare(_)
Text(t, least) == IF Tight(t) < least THEN <<"(">> \o Bare(t) \o <<")">> ELSE Bare(t)
Bare(t) ==
  CASE t.k = "id" -> <<t.n>>
    [] t.k = "bin" -> LET p == 2 + BinPrec[t.op] IN Text(t.l, p) \o <<t.op>> \o Text(t.r, p + 1)
    [] t.k = "asg" -> Text(t.l, 13) \o <<t.op>> \o Text(t.r, 1)
    [] t.k = "cond" -> Text(t.c, 3) \o <<"?">> \o Text(t.a, 1) \o <<":">> \o Text(t.b, 2)
    [] t.k = "un" -> <<t.op>> \o Text(t.e, 13)
    [] t.k = "cast" -> <<"(">> \o (IF t.t = VolInt THEN <<"volatile", "int", "*">> ELSE IF t.t = VolS THEN <<"volatile", "struct", "S", "*">> ELSE <<"int">>) \o <<")">> \o Text(t.e, 13)
    [] t.k = "post" -> Text(t.e, 14) \o <<t.op>>
    [] t.k = "idx" -> Text(t.a, 14) \o <<"[">> \o Text(t.i, 1) \o <<"]">>
    [] t.k = "fld" -> Text(t.e, 14) \o <<IF t.arrow THEN "->" ELSE ".", t.f>>
    [] t.k = "call" -> <<t.f.n, "(">> \o Text(t.as[1], 1) \o (IF Len(t.as) = 2 THEN <<",">> \o Text(t.as[2], 1) ELSE <<>>) \o <<")">>

RECURSIVE NoPar(_)
NoPar(t) ==
  CASE t.k = "par" -> NoPar(t.e)
    [] t.k \in {"bin", "asg"} -> [t EXCEPT !.l = NoPar(@), !.r = NoPar(@)]
    [] t.k = "cond" -> [t EXCEPT !.c = NoPar(@), !.a = NoPar(@), !.b = NoPar(@)]
    [] t.k \in {"un", "cast", "post", "fld"} -> [t EXCEPT !.e = NoPar(@)]
    [] t.k = "idx" -> [t EXCEPT !.a = NoPar(@), !.i = NoPar(@)]
    [] t.k = "call" -> [t EXCEPT !.as = [i \in 1..Len(@) |-> NoPar(@[i])]]
    [] OTHER -> t

VARIABLES t, n
Init == t = Hole /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ \E o \in Ops : \E x \in Nodes(o) : t' \in Put1(t, HoleOf(o), x)
Spec == Init /\ [][Next]_<<t, n>>

G1 == [ty |-> {}, alt |-> {}, params |-> {}]
Names(ts) == [i \in 1..Len(ts) |-> IF SubSeq(ts[i], 1, 1) = "#" THEN "v" \o SubSeq(ts[i], 2, Len(ts[i])) ELSE ts[i]]
Txt == Bare(t)
RECURSIVE Ren(_)
Ren(x) ==
  CASE x.k = "id" -> [x EXCEPT !.n = Names(<<@>>)[1]]
    [] x.k \in {"bin", "asg"} -> [x EXCEPT !.l = Ren(@), !.r = Ren(@)]
    [] x.k = "cond" -> [x EXCEPT !.c = Ren(@), !.a = Ren(@), !.b = Ren(@)]
    [] x.k \in {"un", "cast", "post", "fld"} -> [x EXCEPT !.e = Ren(@)]
    [] x.k = "idx" -> [x EXCEPT !.a = Ren(@), !.i = Ren(@)]
    [] x.k = "call" -> [x EXCEPT !.as = [i \in 1..Len(@) |-> Ren(@[i])]]
    [] OTHER -> x
Read(ts) == LET r == ParseExpr(G1, Names(ts)) IN IF r.ok THEN NoPar(r.a) ELSE [k |-> "none"]
Same == Ren(t)
RoundTrip == Read(Txt) = Same

\* matching parentheses, and the text without them
RECURSIVE CloseOf(_, _, _)
CloseOf(ts, i, d) == IF ts[i] = "(" THEN CloseOf(ts, i + 1, d + 1) ELSE IF ts[i] = ")" THEN (IF d = 1 THEN i ELSE CloseOf(ts, i + 1, d - 1)) ELSE CloseOf(ts, i + 1, d)
Drop(ts, i, j) == [q \in 1..(Len(ts) - 2) |-> ts[IF q < i THEN q ELSE IF q < j - 1 THEN q + 1 ELSE q + 2]]
Needed == \A i \in 1..Len(Txt) : (Txt[i] = "(" /\ ~(i > 1 /\ Txt[i - 1] \in {"f", "g"}) /\ Txt[i + 1] \notin {"int", "volatile"}) => Read(Drop(Txt, i, CloseOf(Txt, i, 0))) # Same
Export == n = 0 \/ PrintT("H " \o ToJson([t |-> Txt, n |-> n]))
=============================================================================
