-------------------------------- MODULE Ver --------------------------------
(***************************************************************************)
(* Versions of Rust, and the version each form of code first appeared in.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
VVal(c) == CHOOSE i \in 0..9 : ToString(i) = c
VC(s, i) == SubSeq(s, i, i)

\* the number at position i: [v, i], i unchanged if there is none
RECURSIVE VNum(_, _, _)
VNum(s, i, acc) == IF i <= Len(s) /\ VC(s, i) \in VDigits THEN VNum(s, i + 1, 10 * acc + VVal(VC(s, i))) ELSE [v |-> acc, i |-> i]
RECURSIVE VParts(_, _, _)
\* the numbers of a version, then what follows them
VParts(s, i, acc) ==
  LET n == VNum(s, i, 0) IN
  IF n.i = i THEN [ok |-> FALSE, p |-> acc, i |-> i]
  ELSE IF n.i <= Len(s) /\ VC(s, n.i) = "." /\ Len(acc) < 2 THEN VParts(s, n.i + 1, Append(acc, n.v))
  ELSE [ok |-> TRUE, p |-> Append(acc, n.v), i |-> n.i]

\* no version, or none that can be read: the newest
Newest == [ok |-> TRUE, new |-> TRUE, p |-> <<9999, 0, 0>>, pre |-> FALSE]
Odd == [ok |-> FALSE, new |-> FALSE, p |-> <<0, 0, 0>>, pre |-> FALSE]
Pad(p) == p \o SubSeq(<<0, 0, 0>>, 1, 3 - Len(p))
VParse(s) ==
  IF s \in {"", "nightly"} THEN Newest
  ELSE LET r == VParts(s, 1, <<>>) IN
    IF ~r.ok THEN Odd
    ELSE IF r.i > Len(s) THEN [ok |-> TRUE, new |-> FALSE, p |-> Pad(r.p), pre |-> FALSE]
    ELSE IF VC(s, r.i) = "-" /\ r.i < Len(s) THEN [ok |-> TRUE, new |-> FALSE, p |-> Pad(r.p), pre |-> TRUE]
    ELSE Odd

RECURSIVE Lex3(_, _, _)
Lex3(a, b, i) == IF i > Len(b) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE Lex3(a, b, i + 1)
AtLeast(v, m) == Lex3(v.p, m, 1)

\* "yes", "no"; "maybe": a pre-release of the very version it appeared in
HasSince(v, m) == IF v.pre /\ v.p = Pad(m) THEN "maybe" ELSE IF AtLeast(v, m) THEN "yes" ELSE "no"

\* what generated code may be made of
Since == ("static elision" :> <<1, 17>>) @@ ("let in const" :> <<1, 33>>) @@ ("as_bytes in const" :> <<1, 39>>) @@ ("if in const" :> <<1, 46>>) @@
         ("addr_of" :> <<1, 51>>) @@ ("asm" :> <<1, 59>>) @@ ("CStr in const" :> <<1, 59>>) @@ ("offset_of" :> <<1, 77>>) @@ ("c literal" :> <<1, 77>>) @@
         ("raw reference" :> <<1, 82>>) @@ ("unsafe extern" :> <<1, 82>>) @@ ("inline const" :> <<1, 79>>) @@ ("i128" :> <<1, 26>>) @@
         ("as_ptr in const" :> <<1, 32>>) @@ ("size_of in const" :> <<1, 24>>) @@ ("null in const" :> <<1, 24>>)
\* newer names of the standard library
NameSince == ("cast_mut" :> <<1, 65>>) @@ ("cast_const" :> <<1, 65>>) @@ ("byte_add" :> <<1, 75>>) @@ ("byte_sub" :> <<1, 75>>) @@ ("count_bytes" :> <<1, 79>>) @@
             ("from_bytes_until_nul" :> <<1, 69>>) @@ ("from_ref" :> <<1, 76>>) @@ ("from_mut" :> <<1, 76>>) @@ ("unsigned_abs" :> <<1, 51>>) @@
             ("without_provenance_mut" :> <<1, 84>>) @@ ("without_provenance" :> <<1, 84>>) @@ ("dangling_mut" :> <<1, 84>>) @@
             ("with_exposed_provenance_mut" :> <<1, 84>>) @@ ("with_exposed_provenance" :> <<1, 84>>) @@ ("unchecked_add" :> <<1, 79>>) @@
             ("abs_diff" :> <<1, 60>>) @@ ("div_euclid" :> <<1, 38>>) @@ ("rem_euclid" :> <<1, 38>>) @@ ("as_str" :> <<1, 84>>)
Supports(v, f) == IF f \in DOMAIN Since THEN HasSince(v, Since[f]) ELSE HasSince(v, NameSince[f])
AllForms == DOMAIN Since \cup DOMAIN NameSince
=============================================================================
