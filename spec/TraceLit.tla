------------------------------ MODULE TraceLit ------------------------------
(* Recorded runs of the real code on literals, judged by Lit.  Each event defines one macro, expands it and    *)
(* generates its constant.                                                                                     *)
EXTENDS Lit, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NE == Len(Trace)
Chunk == 1 + (NE \div 64)

VARIABLE e
Init == e \in {i \in 1..NE : (i - 1) % Chunk = 0}

\* result of pasting all operands of a ## chain, or the list itself
RECURSIVE Glue(_)
Glue(ts) == IF Len(ts) >= 3 /\ ts[2] = "##" THEN Glue(<<ts[1] \o ts[3]>> \o SubSeq(ts, 4, Len(ts))) ELSE ts

JudgeStep(ev, k) ==
  LET st == ev.steps[k]
      body == Glue(ev.steps[1].b)
  IN CASE st.op = "ev" /\ Len(body) = 1 -> JudgeTok(st.r, body[1])
       [] st.op = "gv" -> JudgeLit(st.r, body, ev.wchar)
       [] OTHER -> "none"

Note(v, k) == CASE SubSeq(v, 1, 1) = "b" -> PrintT("BAD " \o ToString(e) \o " " \o ToString(k) \o " " \o v)
                [] SubSeq(v, 1, 1) = "k" -> PrintT("KNOWN " \o ToString(e) \o " " \o SubSeq(v, 7, Len(v)) \o " x")
                [] OTHER -> TRUE

Next ==
  LET ev == Trace[e]
      vs == TLCEval([k \in 1..Len(ev.steps) |-> JudgeStep(ev, k)])
      has(x) == \E k \in 1..Len(vs) : vs[k] = x
      sum == IF \E k \in 1..Len(vs) : SubSeq(vs[k], 1, 1) = "b" THEN "bad" ELSE IF has("ok") THEN "ok" ELSE IF has("rejected") THEN "rejected"
             ELSE "open"
  IN /\ \A k \in 1..Len(vs) : Note(vs[k], k)
     /\ PrintT("R " \o ToString(e) \o " " \o sum)
     /\ e < NE /\ e % Chunk # 0
     /\ e' = e + 1
Spec == Init /\ [][Next]_e
=============================================================================
