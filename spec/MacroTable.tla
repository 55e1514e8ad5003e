----------------------------- MODULE MacroTable -----------------------------
(***************************************************************************)
(* The macro table: what a macro set remembers about a history of          *)
(* definitions and undefinitions.  One action per public operation.        *)
(***************************************************************************)
EXTENDS Cpp

VARIABLE tbl          \* name -> definition, for the currently defined names

EmptyTable == [n \in {} |-> <<>>]

VarDef(b) == [k |-> "v", a |-> <<>>, b |-> b]
FnDef(a, b) == [k |-> "f", a |-> a, b |-> b]

(* two definitions are the same iff kind, parameters and replacement list agree, white space aside (6.10.3p1) *)
SameDef(x, y) == x.k = y.k /\ NoWhite(x.a) = NoWhite(y.a) /\ NoWhite(x.b) = NoWhite(y.b)

Redefines(t, n, d) == n \in DOMAIN t /\ ~SameDef(t[n], d)

Put(t, n, d) == [x \in DOMAIN t \cup {n} |-> IF x = n THEN d ELSE t[x]]
Drop(t, n) == [x \in DOMAIN t \ {n} |-> t[x]]

Kind(t, n) == IF n \in DOMAIN t THEN t[n].k ELSE "-"

TInit == tbl = EmptyTable

DefineVar(n, b, ret) == ret = Redefines(tbl, n, VarDef(b)) /\ tbl' = Put(tbl, n, VarDef(b))
DefineFn(n, a, b, ret) == ret = Redefines(tbl, n, FnDef(a, b)) /\ tbl' = Put(tbl, n, FnDef(a, b))
UndefVar(n, ret) == ret = (Kind(tbl, n) = "v") /\ tbl' = IF Kind(tbl, n) = "v" THEN Drop(tbl, n) ELSE tbl
UndefFn(n, ret) == ret = (Kind(tbl, n) = "f") /\ tbl' = IF Kind(tbl, n) = "f" THEN Drop(tbl, n) ELSE tbl
=============================================================================
