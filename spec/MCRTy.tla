-------------------------------- MODULE MCRTy --------------------------------
(***************************************************************************)
(* The types a caller can name: a path, relative or absolute, behind       *)
(* MaxP pointers or fewer, and the prefix of its C types.  Laws: the       *)
(* spelling of a type determines it; adding a pointer is undone by taking  *)
(* one away.                                                               *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, Json

CONSTANTS Names, MaxLen, MaxP, Prefixes

VARIABLES ffi, abs, segs, ptrs
Vars == <<ffi, abs, segs, ptrs>>
Init == ffi \in Prefixes /\ abs \in BOOLEAN /\ segs = <<>> /\ ptrs = <<>>
Next == \/ ptrs = <<>> /\ Len(segs) < MaxLen /\ \E n \in Names : segs' = Append(segs, n) /\ UNCHANGED <<ffi, abs, ptrs>>
        \/ segs # <<>> /\ Len(ptrs) < MaxP /\ \E m \in BOOLEAN : ptrs' = Append(ptrs, m) /\ UNCHANGED <<ffi, abs, segs>>
Spec == Init /\ [][Next]_Vars

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "::" \o Join(Tail(q))
Path == (IF abs THEN "::" ELSE "") \o Join(segs)
RECURSIVE TyOf0(_)
TyOf0(p) == IF p = <<>> THEN [k |-> "path", s |-> Path] ELSE [k |-> "ptr", mut |-> p[1], t |-> TyOf0(Tail(p))]
RECURSIVE Spell(_)
Spell(t) == IF t.k = "path" THEN t.s ELSE (IF t.mut THEN "*mut " ELSE "*const ") \o Spell(t.t)
Depth[n \in 0..MaxP] == IF n = 0 THEN TyOf0(<<>>) ELSE [k |-> "ptr", mut |-> ptrs[Len(ptrs) - n + 1], t |-> Depth[n - 1]]
Undone == segs # <<>> => (\A i \in 1..Len(ptrs) : TyOf0(SubSeq(ptrs, i, Len(ptrs))).t = TyOf0(SubSeq(ptrs, i + 1, Len(ptrs))))
Start == segs # <<>> => LET s == Spell(TyOf0(ptrs)) IN SubSeq(s, 1, 1) = (IF ptrs # <<>> THEN "*" ELSE IF abs THEN ":" ELSE SubSeq(segs[1], 1, 1))
Export == segs # <<>> => PrintT("H " \o ToJson([ffi |-> ffi, t |-> TyOf0(ptrs), s |-> Spell(TyOf0(ptrs))]))
=============================================================================
