-------------------------------- MODULE MCFn --------------------------------
(***************************************************************************)
(* Bodies made of one or two of the things a function-like macro can refer *)
(* to, under a context that learns about one name after the other.         *)
(***************************************************************************)
EXTENDS Export, Json

CONSTANTS Atoms,     \* numbers of the atoms used
          Atoms2,    \* in second place
          Pars       \* numbers of the parameter lists used

AtomOf(i) ==
  <<<<"a">>, <<"b">>, <<"1">>, <<"E0">>, <<"v">>, <<"f", "(", "a", ")">>, <<"f", "(", "b", ")">>, <<"g", "(", "a", ",", "b", ")">>, <<"h", "(", ")">>,
    <<"a", "=", "1">>, <<"c", "=", "a">>, <<"&", "b">>, <<"a", "++">>, <<"#", "a">>, <<"__LINE__">>, <<"-", "a">>, <<"(", "long", ")", "b">>,
    <<"sizeof", "(", "b", ")">>, <<"a", "##", "b">>, <<"f", "(", "a", ",", "b", ")">>, <<"fl", "(", "a", ")">>, <<"fv", "(", "b", ")">>, <<"fd", "(", "1", ")">>,
    <<"ps", "->", "n">>, <<"a", "(", "1", ")">>, <<"f", "(", "a", "+", "b", ")">>, <<"b", "==", "1">>, <<"c", "?", "a", ":", "b">>, <<"__INT_MAX__">>,
    <<"(", "b", ")", "1">>, <<"(", "b", "*", ")", "a">>>>[i]
ParsOf(i) == <<<<"a", "b">>, <<"b", "a">>, <<"a">>, <<>>, <<"a", "b", "...">>, <<"...">>, <<"b", "f">>, <<"a", "b", "c">>, <<"v", "a", "f", "b">>>>[i]
Shapes == {"one", "plus", "call", "stmt", "if", "decl", "arg2"}
IsStmt(s) == s \in {"stmt", "if", "decl"}
Par(a) == <<"(">> \o a \o <<")">>
BodyOf(s, a, c) ==
  CASE s = "one" -> a
    [] s = "plus" -> Par(a) \o <<"+">> \o Par(c)
    [] s = "call" -> <<"f", "(">> \o a \o <<")">>
    [] s = "arg2" -> <<"g", "(">> \o a \o <<",">> \o c \o <<")">>
    [] s = "stmt" -> <<"{">> \o a \o <<";">> \o c \o <<";", "}">>
    [] s = "if" -> <<"if", "(">> \o a \o <<")">> \o c \o <<";">>
    [] s = "decl" -> <<"{", "int", "i", "=">> \o a \o <<";">> \o c \o <<";", "}">>

Things == {"a", "b", "c", "v", "f", "g", "own", "rest"}
FnT(ps) == [ps |-> ps]
In == TB("int")
AllFns == ("f" :> FnT(<<In>>)) @@ ("g" :> FnT(<<In, In>>)) @@ ("h" :> FnT(<<>>)) @@ ("fl" :> FnT(<<TB("long")>>)) @@ ("fv" :> FnT(<<In>>)) @@ ("fd" :> FnT(<<TB("double")>>))
Rest == {"h", "fl", "fv", "fd"}
KOf(th) ==
  [args |-> th \cap {"a", "b", "c"},
   vars |-> {"E0"} \cup (IF "rest" \in th THEN {"ps"} ELSE {}) \cup (th \cap {"v", "c"}),
   fns |-> [f \in (th \cap {"f", "g"}) \cup (IF "rest" \in th THEN Rest ELSE {}) |-> AllFns[f]],
   own |-> "own" \in th]

VARIABLES s, a, c, ps, t, th
vars == <<s, a, c, ps, t, th>>
One(x) == x \in {"one", "call"}
Gn == [ty |-> {}, alt |-> {}]
Bd == BodyOf(s, AtomOf(a), AtomOf(c))
Pl == ParsOf(ps)
PS == {Pl[i] : i \in 1..Len(Pl)}
Unread == [ok |-> FALSE, isx |-> FALSE, a |-> [k |-> "unread"], ty |-> {}]
Init == s \in Shapes /\ a \in Atoms /\ (IF One(s) THEN c = a ELSE c \in Atoms2) /\ ps \in Pars /\ t = Unread /\ th = {}
InBody(n) == n = "own" \/ LET b == Bd IN \E i \in 1..Len(b) : IF n = "rest" THEN b[i] \in Rest \cup {"ps"} ELSE b[i] = n
Read == t = Unread /\ t' = TreeOf(Gn, TLCEval(Bd), PS \ {"..."}) /\ UNCHANGED <<s, a, c, ps, th>>
Learn == t.ok /\ (\E n \in {n \in Things \ th : InBody(n)} : th' = th \cup {n}) /\ UNCHANGED <<s, a, c, ps, t>>
Next == Read \/ Learn
Spec == Init /\ [][Next]_vars
F(x) == Facts(t, Bd, Pl, TLCEval(KOf(x)))

\* with everything known about a body without locals, the form is determined
Decided == ("own" \notin th /\ (\A n \in Things \ {"own"} : InBody(n) => n \in th) /\ t.ok) =>
              LET f == F(th) IN MustMacro(f) \/ MustFn(f, "int") \/ f.locals # {} \/ f.called # {} \/ f.arity
Exclusive == t.ok => ~(MustMacro(F(th)) /\ MustFn(F(th), "int"))
OwnIsMacro == t.ok /\ "own" \in th => MustMacro(F(th))
Variadic == t.ok /\ "..." \in PS => MustMacro(F(th))
\* learning about a name never turns a function back into a macro
Learning == [][ (t.ok /\ MustFn(F(th), "int") /\ "own" \notin th') => MustFn(F(th'), "int") ]_vars

Export == t # Unread => PrintT("H " \o ToJson([s |-> s, x |-> t.isx, ok |-> t.ok, b |-> Bd, a |-> Pl, th |-> th]))
=============================================================================
