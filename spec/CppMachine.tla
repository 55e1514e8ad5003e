----------------------------- MODULE CppMachine -----------------------------
(***************************************************************************)
(* Macro expansion as a small-step machine.  The machine holds a stack of  *)
(* frames; the bottom one expands the query, every other one expands one   *)
(* argument of the call below it.  Each action is one elementary step of   *)
(* 6.10.3: emit a token, replace an object-like macro, enter a call,       *)
(* finish an argument, substitute.                                         *)
(*                                                                         *)
(* Properties checked by TLC for every world in the configured universe:   *)
(*   NoReentry   a token painted with its own name is never replaced;      *)
(*   Terminates  the machine reaches "done" (liveness, weak fairness);     *)
(*   Agrees      its result is the one the big-step definition in Cpp.tla  *)
(*               gives, i.e. the one the real code is compared with.       *)
(* Worlds are printed when the machine stops and replayed on the real      *)
(* MacroSet.                                                               *)
(***************************************************************************)
EXTENDS Cpp, Json

CONSTANTS Worlds, ExportC

VARIABLES w, st, pc, last
cvars == <<w, st, pc, last>>

(* frame: [out, todo, call]; call describes the pending invocation whose arguments are being expanded:       *)
(*   [name, hs, args (raw), full (expanded so far), rest] or NoCall                                          *)
NoCall == [name |-> "", hs |-> {}, args |-> <<>>, full |-> <<>>, rest |-> <<>>]
Frame(ts) == [out |-> <<>>, todo |-> ts, call |-> NoCall]

Top == st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
WithTop(f) == Append(Pop, f)

Init ==
  /\ w \in Worlds
  /\ pc = "run" /\ last = [act |-> "init", tok |-> T0("")]
  /\ LET r == SubstVar([b |-> w.q]) IN
     IF Bad(r) THEN st = <<Frame(<<>>)>> ELSE st = <<Frame(r.ts)>>

Env == w.env
InFrame == pc = "run" /\ Top.call.name = ""
Head1 == Top.todo[1]
Replaceable(x) == Plain(x) /\ x.t \in DOMAIN Env /\ x.t \notin x.hs
IsCall == Env[Head1.t].k = "f" /\ Len(Top.todo) >= 2 /\ Plain(Top.todo[2]) /\ Top.todo[2].t = "("

Emit ==
  /\ InFrame /\ Top.todo # <<>>
  /\ IF Replaceable(Head1) THEN Env[Head1.t].k = "f" /\ ~IsCall ELSE TRUE
  /\ st' = WithTop([Top EXCEPT !.out = Append(@, Head1), !.todo = Tail(@)])
  /\ last' = [act |-> "emit", tok |-> Head1]
  /\ UNCHANGED <<w, pc>>

ReplaceVar ==
  /\ InFrame /\ Top.todo # <<>> /\ Replaceable(Head1) /\ Env[Head1.t].k = "v"
  /\ last' = [act |-> "replace", tok |-> Head1]
  /\ LET r == SubstVar(Env[Head1.t]) IN
     IF Bad(r) THEN pc' = "open" /\ UNCHANGED <<w, st>>
     ELSE /\ st' = WithTop([Top EXCEPT !.todo = AddHs(r.ts, Head1.hs \cup {Head1.t}) \o Tail(@)])
          /\ UNCHANGED <<w, pc>>

EnterCall ==
  /\ InFrame /\ Top.todo # <<>> /\ Replaceable(Head1) /\ Env[Head1.t].k = "f" /\ IsCall
  /\ last' = [act |-> "call", tok |-> Head1]
  /\ LET c == Collect(Top.todo, 2, 0, <<>>, <<>>) IN
     IF ~c.ok \/ Top.todo[2].hs # Top.todo[c.close].hs \/ Bad(CallError(Head1.t, Env[Head1.t], c.args))
     THEN pc' = "open" /\ UNCHANGED <<w, st>>
     ELSE /\ st' = WithTop([Top EXCEPT
                !.call = [name |-> Head1.t, hs |-> (Head1.hs \cap Top.todo[c.close].hs) \cup {Head1.t},
                          args |-> c.args, full |-> <<>>,
                          rest |-> SubSeq(Top.todo, c.close + 1, Len(Top.todo))]])
          /\ UNCHANGED <<w, pc>>

\* actual arguments, the variable ones joined
Acts(f) == LET ps == Params(Env[f.call.name].a) IN [i \in 1..Len(ps) |-> Actual(ps, f.call.args, i)]

\* is parameter i used other than next to # or ##?
Used(m, i) ==
  LET ps == Params(m.a) b == NoWhite(m.b) IN
  \E k \in 1..Len(b) : ParamIx(ps, b[k]) = i /\ ~(k > 1 /\ b[k - 1] \in {"#", "##"}) /\ ~(k < Len(b) /\ b[k + 1] = "##")

ExpandArg ==
  /\ pc = "run" /\ Top.call.name # "" /\ Len(Top.call.full) < Len(Acts(Top))
  /\ LET i == Len(Top.call.full) + 1 IN
     IF Used(Env[Top.call.name], i) THEN st' = Append(st, Frame(Acts(Top)[i]))
     ELSE st' = WithTop([Top EXCEPT !.call.full = Append(@, <<>>)])
  /\ last' = [act |-> "arg", tok |-> T0("")]
  /\ UNCHANGED <<w, pc>>

FinishArg ==
  /\ InFrame /\ Top.todo = <<>> /\ Len(st) > 1
  /\ LET below == st[Len(st) - 1] IN
     st' = Append(SubSeq(st, 1, Len(st) - 2), [below EXCEPT !.call.full = Append(@, Top.out)])
  /\ last' = [act |-> "endarg", tok |-> T0("")]
  /\ UNCHANGED <<w, pc>>

\* replacement list with the already expanded arguments
RECURSIVE Ops(_, _, _, _, _, _)
Ops(ps, raw, full, body, i, ops) ==
  IF i > Len(body) THEN [ok |-> TRUE, ops |-> ops]
  ELSE LET t == body[i] p == ParamIx(ps, t) IN
  IF t = "#" THEN
    LET q == IF i < Len(body) THEN ParamIx(ps, body[i + 1]) ELSE 0 IN
    IF q = 0 THEN [ok |-> FALSE, ops |-> <<>>]
    ELSE Ops(ps, raw, full, body, i + 2, Append(ops, Operand(<<Stringize(raw[q])>>)))
  ELSE IF t = "##" THEN Ops(ps, raw, full, body, i + 1, Append(ops, Operator))
  ELSE IF p = 0 THEN Ops(ps, raw, full, body, i + 1, Append(ops, Operand(<<T0(t)>>)))
  ELSE IF (i > 1 /\ body[i - 1] = "##") \/ (i < Len(body) /\ body[i + 1] = "##")
       THEN Ops(ps, raw, full, body, i + 1, Append(ops, Operand(IF raw[p] = <<>> THEN <<PM>> ELSE raw[p])))
       ELSE Ops(ps, raw, full, body, i + 1, Append(ops, Operand(full[p])))

Substitute ==
  /\ pc = "run" /\ Top.call.name # "" /\ Len(Top.call.full) = Len(Acts(Top))
  /\ last' = [act |-> "subst", tok |-> T0(Top.call.name)]
  /\ LET m == Env[Top.call.name]
         o == Ops(Params(m.a), Acts(Top), Top.call.full, NoWhite(m.b), 1, <<>>)
         r == IF o.ok THEN PasteAll(o.ops, <<>>) ELSE Skip
     IN IF Bad(r) THEN pc' = "open" /\ UNCHANGED <<w, st>>
        ELSE /\ st' = WithTop([out |-> Top.out, todo |-> AddHs(NoPM(r.ts), Top.call.hs) \o Top.call.rest, call |-> NoCall])
             /\ UNCHANGED <<w, pc>>

Finish ==
  /\ InFrame /\ Top.todo = <<>> /\ Len(st) = 1 /\ pc' = "done"
  /\ last' = [act |-> "finish", tok |-> T0("")]
  /\ UNCHANGED <<w, st>>

Next == Emit \/ ReplaceVar \/ EnterCall \/ ExpandArg \/ FinishArg \/ Substitute \/ Finish
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)

------------------------------------------------------------------------------
Terminates == <>(pc \in {"done", "open"})

NoReentry == last.act \in {"replace", "call"} => last.tok.t \notin last.tok.hs

\* every frame's tokens of a name in force carry the names they came from: the hide sets only grow
Painted == \A i \in 1..Len(st) : \A k \in 1..Len(st[i].out) :
             LET x == st[i].out[k] IN Plain(x) /\ x.t \in DOMAIN Env /\ Env[x.t].k = "v" => x.t \in x.hs

Agrees ==
  pc # "run" =>
    LET b == ExpandTokens(Env, w.q) IN
    IF pc = "done" THEN ~Bad(b) /\ Spell(b.ts) = Spell(Top.out) ELSE Bad(b)

Export == (ExportC /\ pc # "run") => PrintT("H " \o ToJson([env |-> w.env, q |-> w.q]))
=============================================================================
