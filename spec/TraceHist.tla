----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Trace validation: recorded histories of the real MacroSet (definitions, *)
(* undefinitions, expansions, with what each call returned) are checked,   *)
(* step by step, against MacroTable and Cpp.                               *)
(***************************************************************************)
EXTENDS MacroTable, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NE == Len(Trace)
Chunk == 1 + (NE \div 64)

VARIABLES e, s, verdict      \* current event, next step in it, worst verdict so far

vars == <<tbl, e, s, verdict>>

Init == /\ TInit /\ s = 1 /\ verdict = "none"
        /\ e \in {i \in 1..NE : (i - 1) % Chunk = 0}

St == Trace[e].steps[s]

Names(r) == IF "a" \in DOMAIN r THEN NoCm(r.a) ELSE <<>>

\* the parameter list reported by a symbolic expansion
SameParams(r, ps) ==
  r.s # "ok" \/ LET o == Names(r) IN
    Len(o) = Len(ps) /\ \A i \in 1..Len(ps) : IF ps[i] = "..." THEN o[i].k = "p" /\ o[i].v = "..." ELSE o[i].k = "id" /\ o[i].v = ps[i]

Step ==
  /\ s <= Len(Trace[e].steps)
  /\ s' = s + 1 /\ e' = e
  /\ LET st == St
         ek == "ek" \in DOMAIN Trace[e] /\ Trace[e].ek
         v == CASE st.op = "dv" -> IF st.r = Redefines(tbl, st.n, VarDef(st.b)) THEN "tbl" ELSE "bad:redefinition report"
                [] st.op = "df" -> IF st.r = Redefines(tbl, st.n, FnDef(st.a, st.b)) THEN "tbl" ELSE "bad:redefinition report"
                [] st.op = "uv" -> IF st.r = (Kind(tbl, st.n) = "v") THEN "tbl" ELSE "bad:undefine report"
                [] st.op = "uf" -> IF st.r = (Kind(tbl, st.n) = "f") THEN "tbl" ELSE "bad:undefine report"
                [] st.op = "ev" -> Judge(st.r, ExpandVar(tbl, st.n), ek)
                [] st.op = "ef" -> LET j == Judge(st.r, ExpandFn(tbl, st.n), ek) IN
                                   IF j = "ok" /\ ~SameParams(st.r, Params(tbl[st.n].a)) THEN "bad:parameter list" ELSE j
                [] st.op = "ex" -> Judge(st.r, ExpandTokens(tbl, st.b), ek)
         bad == v \notin {"ok", "open", "tbl"}
     IN /\ verdict' = IF bad /\ verdict \notin {"bad"} THEN "bad" ELSE IF verdict = "none" /\ v = "ok" THEN "ok" ELSE verdict
        /\ bad => PrintT("BAD " \o ToString(e) \o " " \o ToString(s) \o " " \o v)
        /\ tbl' = CASE st.op = "dv" -> Put(tbl, st.n, VarDef(st.b))
                    [] st.op = "df" -> Put(tbl, st.n, FnDef(st.a, st.b))
                    [] st.op = "uv" -> IF Kind(tbl, st.n) = "v" THEN Drop(tbl, st.n) ELSE tbl
                    [] st.op = "uf" -> IF Kind(tbl, st.n) = "f" THEN Drop(tbl, st.n) ELSE tbl
                    [] OTHER -> tbl

NextEvent ==
  /\ s > Len(Trace[e].steps)
  /\ PrintT("R " \o ToString(e) \o " " \o verdict)
  /\ e < NE /\ e % Chunk # 0
  /\ e' = e + 1 /\ s' = 1 /\ verdict' = "none" /\ tbl' = EmptyTable

Next == Step \/ NextEvent
Spec == Init /\ [][Next]_vars
=============================================================================
