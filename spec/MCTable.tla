------------------------------ MODULE MCTable ------------------------------
(***************************************************************************)
(* The macro set as it is built: one map of variable-like and one map of   *)
(* function-like macros.  TLC explores every history of operations up to   *)
(* Depth, checks the properties below against the history itself, checks   *)
(* that the two-map design refines the one-table view (MacroTable), and    *)
(* prints each complete history so that it can be replayed on the real     *)
(* MacroSet.                                                               *)
(***************************************************************************)
EXTENDS Cpp, Json

CONSTANTS Depth, NamesC, BodiesC, ParamsC, ExportC

VARIABLES vmap, fmap, h
mvars == <<vmap, fmap, h>>

Empty == [n \in {} |-> <<>>]
Union == [n \in DOMAIN vmap \cup DOMAIN fmap |->
           IF n \in DOMAIN vmap THEN [k |-> "v", a |-> <<>>, b |-> vmap[n]] ELSE [k |-> "f", a |-> fmap[n].a, b |-> fmap[n].b]]

Abs == INSTANCE MacroTable WITH tbl <- Union

Set(m, n, x) == [y \in DOMAIN m \cup {n} |-> IF y = n THEN x ELSE m[y]]
Del(m, n) == [y \in DOMAIN m \ {n} |-> m[y]]

Init == vmap = Empty /\ fmap = Empty /\ h = <<>>

DefVar(n, b) ==
  LET ret == (n \in DOMAIN fmap) \/ (n \in DOMAIN vmap /\ NoWhite(vmap[n]) # NoWhite(b)) IN
  /\ fmap' = Del(fmap, n) /\ vmap' = Set(vmap, n, b)
  /\ h' = Append(h, [op |-> "dv", n |-> n, a |-> <<>>, b |-> b, x |-> ret])

DefFn(n, a, b) ==
  LET ret == (n \in DOMAIN vmap) \/
             (n \in DOMAIN fmap /\ <<NoWhite(fmap[n].a), NoWhite(fmap[n].b)>> # <<NoWhite(a), NoWhite(b)>>) IN
  /\ vmap' = Del(vmap, n) /\ fmap' = Set(fmap, n, [a |-> a, b |-> b])
  /\ h' = Append(h, [op |-> "df", n |-> n, a |-> a, b |-> b, x |-> ret])

UndVar(n) == /\ fmap' = fmap /\ vmap' = Del(vmap, n)
             /\ h' = Append(h, [op |-> "uv", n |-> n, a |-> <<>>, b |-> <<>>, x |-> n \in DOMAIN vmap])
UndFn(n) == /\ vmap' = vmap /\ fmap' = Del(fmap, n)
            /\ h' = Append(h, [op |-> "uf", n |-> n, a |-> <<>>, b |-> <<>>, x |-> n \in DOMAIN fmap])

Next == /\ Len(h) < Depth
        /\ \E n \in NamesC :
             \/ \E b \in BodiesC : DefVar(n, b)
             \/ \E a \in ParamsC, b \in BodiesC : DefFn(n, a, b)
             \/ UndVar(n) \/ UndFn(n)

Spec == Init /\ [][Next]_mvars

------------------------------------------------------------------------------
(* C01, stated over the history alone *)

Defs(n) == {i \in 1..Len(h) : h[i].n = n /\ h[i].op \in {"dv", "df"}}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
\* the definition in force for n, or 0
InForce(n) ==
  IF Defs(n) = {} THEN 0
  ELSE LET i == Last(Defs(n)) IN
       IF \E j \in (i + 1)..Len(h) : h[j].n = n /\ h[j].op = (IF h[i].op = "dv" THEN "uv" ELSE "uf") THEN 0 ELSE i

OneKind == DOMAIN vmap \cap DOMAIN fmap = {}
LatestDefinition ==
  \A n \in NamesC : LET i == InForce(n) IN
    IF i = 0 THEN n \notin DOMAIN vmap /\ n \notin DOMAIN fmap
    ELSE IF h[i].op = "dv" THEN n \in DOMAIN vmap /\ vmap[n] = h[i].b
    ELSE n \in DOMAIN fmap /\ fmap[n] = [a |-> h[i].a, b |-> h[i].b]

(* C02 over the history: a definition reports a redefinition iff one was in force and differs beyond white space *)
Before(k) == SubSeq(h, 1, k)
ReportsExact ==
  h # <<>> =>
    LET k == Len(h) o == h[k]
        D == {i \in 1..(k - 1) : h[i].n = o.n /\ h[i].op \in {"dv", "df"}}
        i == IF D = {} THEN 0 ELSE
             LET l == Last(D) IN
             IF \E j \in (l + 1)..(k - 1) : h[j].n = o.n /\ h[j].op = (IF h[l].op = "dv" THEN "uv" ELSE "uf") THEN 0 ELSE l
    IN o.x = (CASE o.op \in {"dv", "df"} ->
                    i # 0 /\ (h[i].op # o.op \/ NoWhite(h[i].a) # NoWhite(o.a) \/ NoWhite(h[i].b) # NoWhite(o.b))
                [] o.op = "uv" -> i # 0 /\ h[i].op = "dv"
                [] o.op = "uf" -> i # 0 /\ h[i].op = "df")

(* the two-map design refines the one-table machine *)
AbsStep ==
  LET o == h'[Len(h')] IN
  CASE o.op = "dv" -> Abs!DefineVar(o.n, o.b, o.x)
    [] o.op = "df" -> Abs!DefineFn(o.n, o.a, o.b, o.x)
    [] o.op = "uv" -> Abs!UndefVar(o.n, o.x)
    [] OTHER -> Abs!UndefFn(o.n, o.x)
Refines == [][AbsStep]_mvars

\* print complete histories
Export == (ExportC /\ Len(h) = Depth) => PrintT("H " \o ToJson(h))

MCBodies == {<<>>, <<"x">>, <<"y">>, <<"x", "y">>}
MCBodies1 == {<<"x">>, <<"x", "A">>}
MCParams1 == {<<>>, <<"x">>}
MCBodies2 == {<<"x">>, <<"x", "y">>, <<"B">>}
MCBodiesWs == {<<"x">>, <<"/* c */", "x">>, <<"x", "y">>, <<"x", "/* c */", "y">>}
MCParams == {<<>>, <<"x">>, <<"y">>}
MCParams2 == {<<"x">>, <<"y">>}
MCParamsWs == {<<"x">>, <<"/* p */", "x">>, <<"x", "...">>}
=============================================================================
