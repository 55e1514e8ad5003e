------------------------------- MODULE MCType -------------------------------
(***************************************************************************)
(* Every sequence of at most MaxW specifiers and qualifiers followed by at *)
(* most MaxS stars and qualifiers.  Laws: the order of the specifiers does *)
(* not matter; printing a type and reading it gives it back; a star makes  *)
(* a pointer to it.                                                        *)
(***************************************************************************)
EXTENDS CTypes, Json

CONSTANTS MaxW, MaxS, Alphabet

VARIABLES ws, st
Vars == <<ws, st>>
Init == ws = <<>> /\ st = <<>>
Tags(w) == w = "struct"
Add(w) == ws \o (IF Tags(w) THEN <<w, "S">> ELSE <<w>>)
NWords == Len(SelectSeq(ws, LAMBDA w : w # "S"))
Next == \/ st = <<>> /\ NWords < MaxW /\ \E w \in Alphabet : ws' = Add(w) /\ UNCHANGED st
        \/ ws # <<>> /\ Len(st) < MaxS /\ \E w \in {"*", "const", "volatile"} : (st # <<>> \/ w = "*") /\ st' = Append(st, w) /\ UNCHANGED ws
Spec == Init /\ [][Next]_Vars

G1 == [ty |-> {"T"}, alt |-> {}, params |-> {}]
NoTy == [k |-> "none"]
Ty(ts) == LET r == TypeName(G1, ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r.a ELSE NoTy
Seq0 == ws \o st
\* a tag and its name stay together
Rot(q) == IF q = <<>> THEN q ELSE IF Tags(q[1]) THEN SubSeq(q, 3, Len(q)) \o SubSeq(q, 1, 2) ELSE Tail(q) \o <<q[1]>>
Swap2(q) == IF Len(q) < 2 \/ \E i \in 1..Len(q) : Tags(q[i]) THEN q ELSE <<q[2], q[1]>> \o SubSeq(q, 3, Len(q))
Symmetric == Ty(Rot(ws) \o st) = Ty(Seq0) /\ Ty(Swap2(ws) \o st) = Ty(Seq0)
Prints == Ty(Seq0) # NoTy => Ty(PrintTy(Ty(Seq0))) = Ty(Seq0) /\ Usual(PrintTy(Ty(Seq0)))
Pointer == st # <<>> /\ Ty(Seq0) # NoTy => Ty(Seq0).k = "p"
UsualIsType == Usual(Seq0) /\ ws # <<>> => Ty(Seq0) # NoTy
Export == ws # <<>> => PrintT("H " \o ToJson([t |-> Seq0, ty |-> Ty(Seq0) # NoTy, u |-> Usual(Seq0)]))
=============================================================================
