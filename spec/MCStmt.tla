------------------------------- MODULE MCStmt -------------------------------
(***************************************************************************)
(* Every nesting of at most MaxOps conditionals, loops, blocks and         *)
(* declarations, written with braces only where the C grammar needs them   *)
(* ("#e" an expression, "#c" a condition, "#v" a value, "#t" a type).      *)
(* Reading it back gives the tree: an else belongs to the nearest if.      *)
(***************************************************************************)
EXTENDS CSyn, Json

CONSTANTS MaxOps, Ops

Hole == [k |-> "ex", e |-> "#e"]
None == [k |-> "blk", s |-> <<>>]
Grow(o) ==
  CASE o = "if" -> [k |-> "if", c |-> "#c", t |-> Hole, e |-> None]
    [] o = "else" -> [k |-> "if", c |-> "#c", t |-> Hole, e |-> Hole]
    [] o = "do" -> [k |-> "do", b |-> Hole, c |-> "#c"]
    [] o = "empty" -> None
    [] o = "seq" -> [k |-> "blk", s |-> <<Hole, Hole>>]
    [] o = "decl" -> [k |-> "blk", s |-> <<[k |-> "decl", static |-> FALSE], Hole>>]
    [] o = "static" -> [k |-> "blk", s |-> <<[k |-> "decl", static |-> TRUE], Hole>>]
RECURSIVE Put1(_, _)
Put1(x, y) ==
  CASE x = Hole -> {y}
    [] x.k = "if" -> {[x EXCEPT !.t = z] : z \in Put1(x.t, y)} \cup {[x EXCEPT !.e = z] : z \in Put1(x.e, y)}
    [] x.k = "do" -> {[x EXCEPT !.b = z] : z \in Put1(x.b, y)}
    [] x.k = "blk" -> UNION {{[x EXCEPT !.s[i] = z] : z \in Put1(x.s[i], y)} : i \in 1..Len(x.s)}
    [] OTHER -> {}

\* ends with an if that could still take an else
RECURSIVE Dangles(_)
Dangles(x) == x.k = "if" /\ (x.e = None \/ Dangles(x.e))

RECURSIVE Text(_, _)
RECURSIVE Texts(_, _, _)
Texts(ss, i, all) == IF i > Len(ss) THEN <<>> ELSE Text(ss[i], all) \o Texts(ss, i + 1, all)
Braced(x, all) == IF x.k = "blk" THEN Text(x, all) ELSE <<"{">> \o Text(x, all) \o <<"}">>
\* all: braces around every branch and body
Text(x, all) ==
  CASE x.k = "ex" -> <<"#e", ";">>
    [] x.k = "decl" -> (IF x.static THEN <<"static">> ELSE <<>>) \o <<"int", "#i", "=", "#v", ";">>
    [] x.k = "blk" -> <<"{">> \o Texts(x.s, 1, all) \o <<"}">>
    [] x.k = "do" -> <<"do">> \o (IF all THEN Braced(x.b, all) ELSE Text(x.b, all)) \o <<"while", "(", "#c", ")", ";">>
    [] x.k = "if" -> <<"if", "(", "#c", ")">> \o
         (IF x.e = None THEN (IF all THEN Braced(x.t, all) ELSE Text(x.t, all))
          ELSE (IF all \/ Dangles(x.t) THEN Braced(x.t, all) ELSE Text(x.t, all)) \o <<"else">> \o (IF all THEN Braced(x.e, all) ELSE Text(x.e, all)))
    [] OTHER -> <<>>

VARIABLES x, n
Init == x = Hole /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ \E o \in Ops : x' \in Put1(x, Grow(o))
Spec == Init /\ [][Next]_<<x, n>>

G1 == [ty |-> {}, alt |-> {}, params |-> {}]
Names(ts) == [i \in 1..Len(ts) |-> IF SubSeq(ts[i], 1, 1) = "#" THEN "v" \o SubSeq(ts[i], 2, Len(ts[i])) ELSE ts[i]]
RECURSIVE Shape(_)
\* trees as read, with the operands and single braces removed
Shape(y) ==
  CASE y.k = "ex" -> Hole
    [] y.k = "decl" -> [k |-> "decl", static |-> y.static]
    [] y.k = "do" -> [k |-> "do", b |-> Shape(y.b), c |-> "#c"]
    [] y.k = "if" -> [k |-> "if", c |-> "#c", t |-> Shape(y.t), e |-> Shape(y.e)]
    [] y.k = "blk" -> IF Len(y.s) = 1 THEN Shape(y.s[1]) ELSE [k |-> "blk", s |-> [i \in 1..Len(y.s) |-> Shape(y.s[i])]]
    [] OTHER -> y
Read(ts) == LET r == ParseStmts(G1, Names(ts)) IN IF r.ok THEN Shape([k |-> "blk", s |-> r.a]) ELSE [k |-> "none"]
RoundTrip == Read(Text(x, FALSE)) = x /\ Read(Text(x, TRUE)) = x
\* the last semicolon may be left to the user of the macro
Last(ts) == ts[Len(ts)] = ";"
LeaveLast == Last(Text(x, FALSE)) => Read(SubSeq(Text(x, FALSE), 1, Len(Text(x, FALSE)) - 1)) = x
Export == PrintT("H " \o ToJson([t |-> Text(x, FALSE), n |-> n])) /\ PrintT("H " \o ToJson([t |-> Text(x, TRUE), n |-> n]))
=============================================================================
