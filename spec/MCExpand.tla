------------------------------ MODULE MCExpand ------------------------------
(* Small worlds for CppMachine, enumerated exhaustively. *)
EXTENDS CppMachine, SequencesExt, IOUtils

UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

\* one function-like macro F(a) and one object-like macro A, every body up to the given lengths; fixed set of queries
Uni == IOEnv.UNIVERSE

V(b) == [k |-> "v", a |-> <<>>, b |-> b]
F(a, b) == [k |-> "f", a |-> a, b |-> b]

Q1 == {<<"F", "(", "A", ")">>, <<"A">>, <<"A", "(", "x", ")">>, <<"F", "(", "F", ")", "(", "x", ")">>,
       <<"F", "(", "F", "(", "x", ")", ")">>}

W1 == {[env |-> ("A" :> V(ab)) @@ ("F" :> F(<<"a">>, fb)), q |-> q] :
        ab \in UpTo({"A", "F", "x", "("}, 2) \cup UpTo({"F", "A"}, 3), fb \in UpTo({"a", "A", "F", "("}, 2) \cup UpTo({"a", "F"}, 3), q \in Q1}

\* two function-like macros
Q2 == {<<"F", "(", "G", ")">>, <<"G", "(", "F", ",", "x", ")">>, <<"F", "(", "G", ")", "(", "x", ",", "F", ")">>}
W2 == {[env |-> ("F" :> F(<<"a">>, fb)) @@ ("G" :> F(<<"a", "b">>, gb)), q |-> q] :
        fb \in UpTo({"a", "F", "G"}, 2) \cup {<<"G", "(", "a", ",", "F", ")">>, <<"a", "(", "F", ")">>, <<"F", "(", "a", ")">>, <<"G", "a">>},
        gb \in UpTo({"a", "b", "F", "G"}, 2) \cup {<<"F", "(", "b", ")">>, <<"a", "(", "b", ")">>, <<"b", "(", "a", ")">>, <<"G", "(", "b", ",", "a", ")">>},
        q \in Q2}

\* # and ## next to ordinary uses
W3 == {[env |-> ("A" :> V(<<"x", "A">>)) @@ ("F" :> F(<<"a", "b">>, fb)), q |-> q] :
        fb \in UpTo({"a", "b", "##", "#", "A"}, 4),
        q \in {<<"F", "(", "A", ",", "1", ")">>, <<"F", "(", ",", "A", ")">>}}

\* mutual recursion of three object-like macros
W4 == {[env |-> ("A" :> V(x)) @@ ("B" :> V(y)) @@ ("C" :> V(z)), q |-> q] :
        x \in UpTo({"A", "B", "C"}, 2), y \in UpTo({"A", "B", "C"}, 2), z \in UpTo({"A", "B", "x"}, 2), q \in {<<"A">>, <<"B", "C">>}}

\* three function-like macros calling one another through arguments
CallOf(f, g) == <<f, "(", g, ")">>
B5 == {<<"a">>, <<"a", "(", "a", ")">>} \cup {CallOf(f, "a") : f \in {"F", "G", "H"}} \cup {<<"a", "(", f, ")">> : f \in {"F", "G", "H"}}
      \cup {<<f>> : f \in {"F", "G", "H"}} \cup {<<f, "(", g, "(", "a", ")", ")">> : f, g \in {"F", "G", "H"}}
W5 == {[env |-> ("F" :> F(<<"a">>, x)) @@ ("G" :> F(<<"a">>, y)) @@ ("H" :> F(<<"a">>, z)), q |-> q] :
        x \in B5, y \in B5, z \in {<<"a">>, <<"F">>, <<"G", "(", "a", ")">>},
        q \in {<<"F", "(", "G", "(", "H", ")", ")", "(", "x", ")">>, <<"F", "(", "x", ")", "(", "G", ")">>}}

MCWorlds == CASE Uni = "1" -> W1 [] Uni = "2" -> W2 [] Uni = "3" -> W3 [] Uni = "4" -> W4 [] Uni = "5" -> W5
=============================================================================
