------------------------------ MODULE TracePath ------------------------------
(***************************************************************************)
(* Recorded runs in which the caller's answer for one name is the type     *)
(* ev.want, spelled as the caller likes: whatever is declared with that    *)
(* type is declared with the same type.                                    *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
NE == Len(Trace)
Chunk == 1 + (NE \div 64)
VARIABLE e
Init == e \in {i \in 1..NE : (i - 1) % Chunk = 0}

\* without a prefix, the C types are found at the root as well (pinned by the unit test of from_rust_ty)
RECURSIVE SameTy(_, _, _)
SameTy(f, w, j) == j.k = w.k /\ (IF w.k = "path" THEN j.s = w.s \/ (f = "" /\ w.s = "::c_int" /\ j.s = "c_int") ELSE j.mut = w.mut /\ SameTy(f, w.t, j.t))
Show(j) == IF "s" \in DOMAIN j THEN j.s ELSE j.k

\* what is declared with the type: the constant, the parameter, the result
Declared(ev, r) ==
  CASE ev.form = "const" -> IF r.ty.k = "none" THEN <<>> ELSE <<r.ty>>
    [] r.item.k # "fn" -> <<>>
    [] ev.form = "param" -> <<r.item.args[1].t>>
    [] ev.form = "both" -> <<r.item.args[1].t, r.item.ret>>
    [] OTHER -> <<r.item.ret>>
Judge(ev) ==
  LET r == ev.steps[Len(ev.steps)].r IN
  CASE r.s \in {"panic", "crash"} -> "bad the library fails: " \o r.d
    [] r.s = "err" -> "rejected"
    [] r.perr # "" -> "bad not Rust: " \o r.perr
    [] OTHER ->
         LET d == Declared(ev, r)
             w == {i \in 1..Len(d) : ~SameTy(ev.cx.ffi, ev.want, d[i])}
         IN IF d = <<>> THEN "none" ELSE IF w = {} THEN "ok" ELSE "bad the caller's type " \o ev.ws \o " became " \o Show(d[CHOOSE i \in w : TRUE])

Judged ==
  LET ev == Trace[e]
      j == TLCEval(Judge(ev))
      b == Len(j) > 3 /\ SubSeq(j, 1, 3) = "bad"
  IN /\ (IF b THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o (IF b THEN "bad" ELSE j))
Next == e < NE /\ e % Chunk # 0 /\ e' = e + 1
Spec == Init /\ [][Next]_e
=============================================================================
