------------------------------ MODULE TraceVer ------------------------------
(***************************************************************************)
(* Recorded runs of one macro for many Rust targets (C17).  ev.runs[1] is  *)
(* the run without a target; steps[1] defines the macro.                   *)
(***************************************************************************)
EXTENDS TraceC, Ver

Occurs(ts, p) == \E i \in 1..(Len(ts) - Len(p) + 1) : SubSeq(ts, i, i + Len(p) - 1) = p
TokAt(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i] ELSE ""
SetOf(ts) == {ts[i] : i \in 1..Len(ts)}
\* the forms a result is made of; var: the expression of a constant
Uses(r, var) ==
  LET ts == r.toks
      tt == r.ttoks
      TKs == SetOf(ts)
      item(i) == ts[i] \in {"const", "static"} /\ TokAt(ts, i + 2) = ":" /\ TokAt(ts, i - 1) # "*"
      F == ("static elision" :> ((\E i \in 1..Len(tt) : tt[i] = "&" /\ TokAt(tt, i + 1) # "'static")
                                  \/ \E i \in 1..Len(ts) : item(i) /\ TokAt(ts, i + 3) = "&" /\ TokAt(ts, i + 4) # "'static")) @@
           ("let in const" :> (var /\ "let" \in TKs)) @@
           ("as_bytes in const" :> ("as_bytes" \in TKs /\ (var \/ \E i \in 1..Len(ts) : item(i)))) @@
           ("if in const" :> (var /\ TKs \cap {"if", "match", "loop", "while"} # {})) @@
           ("addr_of" :> (Occurs(ts, <<"addr_of_mut", "!">>) \/ Occurs(ts, <<"addr_of", "!">>))) @@
           ("asm" :> (Occurs(ts, <<"asm", "!">>) \/ Occurs(ts, <<"global_asm", "!">>))) @@
           ("CStr in const" :> (var /\ TKs \cap {"from_bytes_with_nul_unchecked", "from_bytes_with_nul"} # {})) @@
           ("offset_of" :> Occurs(ts, <<"offset_of", "!">>)) @@
           ("c literal" :> (\E x \in TKs : StartsWith(x, "c\"") \/ StartsWith(x, "cr\""))) @@
           ("raw reference" :> (Occurs(ts, <<"&", "raw", "mut">>) \/ Occurs(ts, <<"&", "raw", "const">>))) @@
           ("unsafe extern" :> Occurs(ts, <<"unsafe", "extern", "\"C\"", "{">>)) @@
           ("inline const" :> Occurs(ts, <<"const", "{">>)) @@
           ("i128" :> (\E x \in TKs : (x \in {"i128", "u128"}) \/ (Len(x) > 4 /\ SubSeq(x, Len(x) - 3, Len(x)) \in {"i128", "u128"}))) @@
           ("as_ptr in const" :> (var /\ "as_ptr" \in TKs)) @@
           ("size_of in const" :> (var /\ "size_of" \in TKs)) @@
           ("null in const" :> (var /\ TKs \cap {"null", "null_mut"} # {}))
  IN {f \in DOMAIN F : F[f]} \cup (TKs \cap DOMAIN NameSince)

\* there is no other form for these
Hard == {"let in const", "if in const", "asm", "offset_of", "as_ptr in const", "size_of in const", "null in const", "i128"}
(* KNOWN FINDING const-fn: constants call size_of, null, null_mut and as_ptr for targets where these are no const fn *)
KnownForms == {"as_ptr in const", "size_of in const", "null in const"}
Nightly(s) == s = "" \/ \E i \in 1..(Len(s) - 6) : SubSeq(s, i, i + 6) = "nightly"

\* is the body a run of string literals?
Strs(ev) == LET b == Body(ev) IN b # <<>> /\ \A i \in 1..Len(b) : IsStr(b[i])
UnitsOf(r) == RustUnits(r.ast)
Var(ev) == ev.steps[1].op = "dv"
Plain(ev) == Var(ev) /\ Strs(ev) /\ LET x == StrRun(Body(ev)) IN x.dom /\ x.p = "" /\ \A i \in 1..Len(x.v) : x.v[i] # 0

SameMeaning(ev, a, b) ==
  IF a.txt = b.txt /\ (Var(ev) => a.tty = b.tty) THEN "ok"
  ELSE IF Var(ev) /\ (Strs(ev) \/ (UnitsOf(a).ok /\ UnitsOf(b).ok)) THEN (IF ~UnitsOf(a).ok \/ ~UnitsOf(b).ok THEN "ropen" ELSE IF UnitsOf(a).u = UnitsOf(b).u THEN "ok" ELSE "the string is another one")
  ELSE LET G == GOf(ev, 64, {})
           ws == {LET x == RRun(G, a, Params(ev), S0(i))
                      y == RRun(G, b, Params(ev), S0(i))
                  IN IF x.s \notin {"ok", "open"} \/ y.s \notin {"ok", "open"} THEN (IF x.s = y.s THEN "ropen" ELSE "valuation " \o ToString(i) \o ": one of them fails")
                     ELSE IF "open" \in {x.s, y.s} THEN (IF x.s = y.s THEN "ropen" ELSE "ropen")
                     ELSE IF Show(FixF(x.v)) # Show(FixF(y.v)) THEN "valuation " \o ToString(i) \o ": value " \o Show(FixF(x.v)) \o " and " \o Show(FixF(y.v))
                     ELSE IF Final(x.S) # Final(y.S) \/ x.S.tr # y.S.tr THEN "valuation " \o ToString(i) \o ": different effects"
                     ELSE "ok" : i \in 1..2}
       IN IF ws = {"ok"} THEN "ok" ELSE IF \E w \in ws : w \notin {"ok", "ropen"} THEN CHOOSE w \in ws : w \notin {"ok", "ropen"} ELSE "ropen"

\* one run, w: that without a target
Judge1V(ev, run, w) ==
  LET r == run.r
      v == VParse(run.t)
      no(S) == {f \in S : Supports(v, f) = "no"}
      notall(S) == {f \in S : Supports(v, f) # "yes"}
      by == "for " \o run.t \o ": "
  IN CASE r.s \in {"panic", "crash"} -> "bad " \o by \o "the library fails: " \o r.d
       [] ~v.ok -> "open"
       [] r.s = "err" -> IF w.s = "err" THEN "rejected"
                         ELSE IF notall(Uses(w, Var(ev)) \cap Hard) # {} THEN "rejected"
                         ELSE "bad " \o by \o "rejected: " \o r.e
       [] w.s = "err" -> "bad " \o by \o "accepted, but not without a target"
       [] r.perr # "" -> "bad " \o by \o "not Rust: " \o r.perr
       [] OTHER ->
            LET u == Uses(r, Var(ev))
                m == SameMeaning(ev, w, r)
            IN IF no(u) \ KnownForms # {} THEN LET f == CHOOSE f \in no(u) \ KnownForms : TRUE IN "bad " \o by \o "uses " \o f
               ELSE IF "c_size_t" \in SetOf(r.toks) \cup SetOf(r.ttoks) /\ ~Nightly(run.t) THEN "bad " \o by \o "uses c_size_t"
               ELSE IF Plain(ev) /\ Supports(v, "CStr in const") = "yes" /\ "CStr" \notin SetOf(r.ttoks) THEN "bad " \o by \o "a string is no CStr"
               ELSE IF m \notin {"ok", "ropen"} THEN "bad " \o by \o m
               ELSE IF "offsetof" \in SetOf(r.toks) /\ "offsetof" \notin SetOf(ev.steps[1].b) THEN "known offsetof"
               ELSE IF no(u) # {} THEN "known const-fn"
               ELSE m

\* the choice depends on the version only: what two versions support alike they get alike
Class(s) == LET v == VParse(s) IN <<[f \in AllForms |-> Supports(v, f)], Nightly(s)>>
\* every event of a file has the same targets
Targets == [i \in 1..Len(Trace[1].runs) |-> Trace[1].runs[i].t]
Classes == [i \in 1..Len(Targets) |-> Class(Targets[i])]
First == [i \in 1..Len(Targets) |-> CHOOSE j \in 1..i : Classes[j] = Classes[i] /\ \A k \in 1..(j - 1) : Classes[k] # Classes[i]]
Settled(s) == VParse(s).ok /\ \A f \in AllForms : Supports(VParse(s), f) # "maybe"
Out1(r) == IF r.s = "ok" THEN <<r.s, r.txt, IF Has(r, "tty") THEN r.tty ELSE "">> ELSE <<r.s, "", "">>

JudgeV(ev) ==
  LET w == ev.runs[1].r
      js == TLCEval([i \in 1..Len(ev.runs) |-> Judge1V(ev, ev.runs[i], w)])
      bads == {i \in 1..Len(js) : Bad(js[i])}
      odd == {i \in 1..Len(ev.runs) : Out1(ev.runs[i].r) # Out1(ev.runs[First[i]].r) /\ Settled(ev.runs[i].t)}
  IN IF bads # {} THEN js[CHOOSE i \in bads : TRUE]
     ELSE IF odd # {} THEN LET i == CHOOSE i \in odd : TRUE IN "bad " \o ev.runs[i].t \o " and " \o ev.runs[First[i]].t \o " support the same but get different code"
     ELSE IF \E i \in 1..Len(js) : StartsWith(js[i], "known") THEN js[CHOOSE i \in 1..Len(js) : StartsWith(js[i], "known")]
     ELSE IF w.s = "err" THEN "rejected"
     ELSE IF \E i \in 1..Len(js) : js[i] = "ropen" THEN "ropen meaning"
     ELSE "ok"

JudgedV ==
  LET ev == Trace[e]
      j == TLCEval(JudgeV(ev))
      w == CASE Bad(j) -> "bad" [] StartsWith(j, "known") -> "known" [] StartsWith(j, "ropen") -> "ropen" [] OTHER -> j
  IN /\ (IF Bad(j) THEN PrintT("BAD " \o ToString(e) \o " 2 " \o j)
         ELSE IF StartsWith(j, "known") THEN PrintT("KNOWN " \o ToString(e) \o " " \o SubSeq(j, 7, Len(j)) \o " x")
         ELSE IF StartsWith(j, "ropen") THEN PrintT("OPEN " \o ToString(e) \o " " \o j) ELSE TRUE)
     /\ PrintT("R " \o ToString(e) \o " " \o w)
=============================================================================
