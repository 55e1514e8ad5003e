------------------------------- MODULE MCSym -------------------------------
(***************************************************************************)
(* C08: putting tokens that are not macro names in place of the            *)
(* placeholders of a symbolic expansion gives what calling the macro with  *)
(* these tokens gives.  Enumerated over small worlds; the worlds are       *)
(* printed and replayed on the real code.                                  *)
(***************************************************************************)
EXTENDS Cpp, Json

CONSTANTS Worlds, ExportC
VARIABLE w

Argv == <<<<"m">>, <<"7">>>>

RECURSIVE Put(_, _)
Put(ts, args) ==          \* placeholders -> argument tokens; # placeholder -> string
  IF ts = <<>> THEN <<>>
  ELSE LET x == ts[1]
           ix(p) == CHOOSE i \in 1..Len(args) : Sym(i - 1).t = p.t
       IN
       IF x.s = "h" THEN <<Operand(<<Stringize(Tks(args[ix(ts[2])]))>>)>> \o Put(SubSeq(ts, 3, Len(ts)), args)
       ELSE IF x.s = "o" THEN <<Operator>> \o Put(Tail(ts), args)
       ELSE IF x.s \in {"y", "v"} THEN <<Operand(IF args[ix(x)] = <<>> THEN <<PM>> ELSE Tks(args[ix(x)]))>> \o Put(Tail(ts), args)
       ELSE <<Operand(<<x>>)>> \o Put(Tail(ts), args)

Instantiate(ts, args) == LET r == PasteAll(Put(ts, args), <<>>) IN IF Bad(r) THEN r ELSE Res(NoPM(r.ts))

RECURSIVE JoinArgs(_)
JoinArgs(as) == IF Len(as) = 1 THEN as[1] ELSE as[1] \o <<",">> \o JoinArgs(Tail(as))

Sym0 == ExpandFn(w.env, "F")
Inst == Instantiate(Sym0.ts, w.args)
Direct == ExpandTokens(w.env, w.q)
\* a name next to an unresolved ## is an operand; after the ## it may become replaceable, which is outside the law
MacroOperand == \E i \in 1..Len(Sym0.ts) : Sym0.ts[i].s = "o" /\
  \E j \in {i - 1, i + 1} : j \in 1..Len(Sym0.ts) /\ Sym0.ts[j].t \in DOMAIN w.env
\* a placeholder that is only a part of a ## operand must not vanish (C pastes the next token of that argument then)
PartOperand == w.deep /\ (\E i \in 1..Len(w.args) : w.args[i] = <<>>) /\ \E i \in 1..Len(Sym0.ts) : Sym0.ts[i].s = "o"
Law == (~Bad(Sym0) /\ ~PartOperand /\ ~MacroOperand /\ ~Bad(Direct)) => (~Bad(Inst) /\ Spell(Inst.ts) = Spell(Direct.ts))

Init == w \in Worlds
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
Export == ExportC => PrintT("H " \o ToJson([env |-> w.env, q |-> w.q]))

UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
V(b) == [k |-> "v", a |-> <<>>, b |-> b]
Fn(a, b) == [k |-> "f", a |-> a, b |-> b]
ArgSets == {<<<<"m">>, <<"7">>>>, <<<<>>, <<"m">>>>}
Mk(env, args) == [env |-> env, deep |-> env["G"].b # <<"a">>, args |-> args, q |-> <<"F", "(">> \o JoinArgs(args) \o <<")">>]
G1 == {<<"a">>, <<"a", "##", "a">>, <<"#", "a">>, <<"a", "x">>, <<"x", "##", "a">>, <<"G", "(", "a", ")">>, <<>>}
W1 == {Mk(("A" :> V(<<"k">>)) @@ ("G" :> Fn(<<"a">>, g)) @@ ("F" :> Fn(<<"a", "b">>, fb)), as) :
         fb \in UpTo({"a", "b", "##", "#", "A", "x"}, 3), g \in {<<"a">>}, as \in ArgSets}
Calls == {<<"G", "(", x, ")">> \o t : x \in {"a", "b", "A"}, t \in UpTo({"a", "##", "A", "b"}, 2)}
         \cup {<<"G", "(", "a", "##", "b", ")">>, <<"G", "(", "G", "(", "b", ")", ")">>, <<"G", "(", "a", "x", "b", ")">>, <<"a", "##", "G", "(", "b", ")">>,
               <<"G", "(", "x", "##", "a", ")">>, <<"G", "(", ")">>, <<"G", "(", "(", "a", ",", "b", ")", ")">>, <<"a", "G", "(", "b", ")", "##", "a">>}
W2 == {Mk(("A" :> V(<<"k", "G">>)) @@ ("G" :> Fn(<<"a">>, g)) @@ ("F" :> Fn(<<"a", "b">>, fb)), as) : fb \in Calls, g \in G1, as \in ArgSets}
MCWorlds == W1 \cup W2
=============================================================================
