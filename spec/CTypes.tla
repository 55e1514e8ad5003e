------------------------------- MODULE CTypes -------------------------------
(***************************************************************************)
(* The Rust type a C type denotes: RustIs(X, t, j) holds when the recorded *)
(* Rust type j is the C type t under the context X (ffi: prefix of the C   *)
(* types; types: what the context answers for names).                      *)
(***************************************************************************)
EXTENDS CSyn

FFI == ("char" :> "c_char") @@ ("schar" :> "c_schar") @@ ("uchar" :> "c_uchar") @@ ("short" :> "c_short") @@ ("ushort" :> "c_ushort") @@
       ("int" :> "c_int") @@ ("uint" :> "c_uint") @@ ("long" :> "c_long") @@ ("ulong" :> "c_ulong") @@ ("llong" :> "c_longlong") @@
       ("ullong" :> "c_ulonglong") @@ ("void" :> "c_void")
Prim == ("bool" :> "bool") @@ ("float" :> "f32") @@ ("double" :> "f64") @@ ("ldouble" :> "f64")      \* Rust has nothing wider than f64

Prefixed(ffi, n) == IF ffi = "" THEN n ELSE ffi \o "::" \o n

RECURSIVE RustIs(_, _, _)
RustIs(X, t, j) ==
  CASE t.k = "p" -> j.k = "ptr" /\ j.mut = ~t.t.c /\ RustIs(X, t.t, j.t)
    [] t.k = "b" -> j.k = "path" /\ j.s = (IF t.n \in DOMAIN Prim THEN Prim[t.n] ELSE Prefixed(X.ffi, FFI[t.n]))
    [] t.k \in {"n", "t"} -> t.n \in DOMAIN X.types /\ j.k # "none" /\ j.s = X.types[t.n]
    [] OTHER -> FALSE

\* every name in it has an answer
RECURSIVE Resolved(_, _)
Resolved(X, t) == CASE t.k = "p" -> Resolved(X, t.t) [] t.k = "b" -> TRUE [] OTHER -> t.k # "t" \/ t.g = "struct"

\* printing a type in the order everybody writes it
Words(n) == CASE n = "char" -> <<"char">> [] n = "schar" -> <<"signed", "char">> [] n = "uchar" -> <<"unsigned", "char">>
              [] n = "short" -> <<"short">> [] n = "ushort" -> <<"unsigned", "short">> [] n = "int" -> <<"int">> [] n = "uint" -> <<"unsigned", "int">>
              [] n = "long" -> <<"long">> [] n = "ulong" -> <<"unsigned", "long">> [] n = "llong" -> <<"long", "long">>
              [] n = "ullong" -> <<"unsigned", "long", "long">> [] n = "ldouble" -> <<"long", "double">> [] OTHER -> <<n>>
Quals(t) == (IF t.c THEN <<"const">> ELSE <<>>) \o (IF t.v THEN <<"volatile">> ELSE <<>>)
RECURSIVE PrintTy(_)
PrintTy(t) == CASE t.k = "p" -> PrintTy(t.t) \o <<"*">> \o Quals(t)
                [] t.k = "b" -> Quals(t) \o Words(t.n)
                [] t.k = "t" -> Quals(t) \o <<t.g, t.n>>
                [] OTHER -> Quals(t) \o <<t.n>>

\* the orders that have to be accepted: qualifiers, sign, length, `int`; qualifiers behind the base type; qualifiers behind a star
Distinct(ws) == \A i, j \in 1..Len(ws) : i # j => ws[i] # ws[j]
RECURSIVE Cut(_, _, _)
Cut(ts, i, S) == IF At(ts, i) \in S THEN Cut(ts, i + 1, S) ELSE i
Usual(ts) ==
  LET a == Cut(ts, 1, QualWords)
      b == IF At(ts, a) \in {"signed", "unsigned"} THEN a + 1 ELSE a
      c == IF At(ts, b) = "short" THEN b + 1 ELSE IF At(ts, b) = "long" THEN (IF At(ts, b + 1) = "long" THEN b + 2 ELSE b + 1) ELSE b
      sized == c > b
      d == IF sized /\ At(ts, c) = "int" THEN c + 1
           ELSE IF ~sized /\ At(ts, c) \in {"int", "char"} THEN c + 1
           ELSE IF sized THEN c
           ELSE 0
      e == IF b = a /\ ~sized /\ At(ts, a) \in {"void", "bool", "float", "double"} THEN a + 1
           ELSE IF b = a /\ At(ts, a) = "long" /\ At(ts, a + 1) = "double" THEN a + 2
           ELSE IF b = a /\ ~sized /\ At(ts, a) = "struct" THEN a + 2
           ELSE IF b = a /\ ~sized /\ At(ts, a) \notin TyWords \cup TagWords \cup {"*", ""} THEN a + 1
           ELSE d
      f == Cut(ts, e, QualWords)
      Starred[i \in 1..(Len(ts) + 1)] == i = Len(ts) + 1 \/ (ts[i] = "*" /\ LET q == Cut(ts, i + 1, QualWords) IN Distinct(SubSeq(ts, i + 1, q - 1)) /\ Starred[q])
  IN e > 0 /\ f <= Len(ts) + 1 /\ Distinct(SubSeq(ts, 1, a - 1)) /\ Distinct(SubSeq(ts, e, f - 1)) /\ Starred[f]
=============================================================================
