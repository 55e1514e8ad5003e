-------------------------------- MODULE MCAsm --------------------------------
(***************************************************************************)
(* Every assembly statement of at most MaxT template pieces and MaxN       *)
(* pieces and operands together.  Laws of the text model: reading the      *)
(* printed statement gives it back; a template written with braces reads   *)
(* back; exchanging two operands together with the references to them      *)
(* leaves what the assembler is handed unchanged.                          *)
(***************************************************************************)
EXTENDS Asm, Json

CONSTANTS MaxT, MaxN, Pieces

VARIABLES tp, outs, ins, ext
Vars == <<tp, outs, ins, ext>>
Size == Len(tp) + Len(outs) + Len(ins)
Init == tp = <<>> /\ outs = <<>> /\ ins = <<>> /\ ext \in BOOLEAN
Refs == {"%0", "%1", "%2"}
Tied(d) == \E i \in 1..Len(ins) : ins[i] = d
Next == /\ Size < MaxN
        /\ \/ /\ Len(tp) < MaxT
              /\ \E p \in Pieces : (ext \/ p \notin Refs) /\ tp' = Append(tp, p)
              /\ UNCHANGED <<outs, ins, ext>>
           \/ /\ ext /\ tp # <<>> /\ Len(outs) < 2 /\ ins = <<>>
              /\ \E c \in {"=r", "+r"} : outs' = Append(outs, c)
              /\ UNCHANGED <<tp, ins, ext>>
           \/ /\ ext /\ tp # <<>> /\ Len(ins) < 2
              /\ \/ ins' = Append(ins, "r")
                 \/ \E d \in {"0", "1"} : ~Tied(d) /\ TiedTo(Codes(d)) < Len(outs) /\ outs[TiedTo(Codes(d)) + 1] = "=r" /\ ins' = Append(ins, d)
              /\ UNCHANGED <<tp, outs, ext>>
Spec == Init /\ [][Next]_Vars

Src(p) == CASE p = "NL" -> "\\n\\t" [] p = "PC" -> (IF ext THEN "%%eax" ELSE "%eax") [] p = "AD" -> (IF ext THEN "(%0)" ELSE "(r0)") [] OTHER -> p
Join(f, n) == LET j[i \in 0..n] == IF i = 0 THEN "" ELSE j[i - 1] \o f[i] IN j[n]
Quo == SubSeq("\"", 1, 1)
Str(s) == Quo \o s \o Quo
Tpl == Str(Join([i \in 1..Len(tp) |-> Src(tp[i])], Len(tp)))
RECURSIVE OpsText(_, _, _)
OpsText(cs, h, i) == IF i > Len(cs) THEN <<>> ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o <<Str(cs[i]), "(", h, ")">> \o OpsText(cs, h, i + 1)
Text == <<"asm", "(", Tpl>> \o (IF ~ext THEN <<>> ELSE <<":">> \o OpsText(outs, "#l", 1) \o (IF ins = <<>> THEN <<>> ELSE <<":">> \o OpsText(ins, "#v", 1))) \o <<")", ";">>

G1 == [ty |-> {}, alt |-> {}, params |-> {}]
Names(ts) == [i \in 1..Len(ts) |-> IF ts[i] = "#l" THEN "a" ELSE IF ts[i] = "#v" THEN "b" ELSE ts[i]]
Got1 == PStmt(G1, Names(Text), 1)
RoundTrip == LET r == Got1 IN
  /\ r.ok /\ r.i = Len(Text) + 1
  /\ r.a.k = "asm" /\ r.a.ext = ext
  /\ [i \in 1..Len(r.a.outs) |-> r.a.outs[i].c] = [i \in 1..Len(outs) |-> Codes(outs[i])]
  /\ [i \in 1..Len(r.a.ins) |-> r.a.ins[i].c] = [i \in 1..Len(ins) |-> Codes(ins[i])]
P == CTpl(Got1.a.tpl, 1, ext)
Decimal(n) == Codes(ToString(n))
Braced(p) == LET j[i \in 0..Len(p)] == IF i = 0 THEN <<>>
                                        ELSE j[i - 1] \o (IF p[i] < 0 THEN <<123>> \o Decimal(0 - p[i] - 1) \o <<125>> ELSE IF p[i] \in {123, 125} THEN <<p[i], p[i]>> ELSE <<p[i]>>)
             IN j[Len(p)]
Braces == P.ok /\ RTpl(Braced(P.p), 1) = P
\* the operands behind the numbers: tied inputs share the one of their output
Slots == LET s[i \in 0..Len(ins)] == IF i = 0 THEN [k \in 1..Len(outs) |-> k]
                                      ELSE LET t == TiedTo(Codes(ins[i])) IN Append(s[i - 1], IF t >= 0 THEN t + 1 ELSE Len(outs) + i)
         IN s[Len(ins)]
N == Len(outs) + Len(ins)
Swap(k) == CASE k = N -> N - 1 [] k = N - 1 -> N [] OTHER -> k
Swapped(p) == [i \in 1..Len(p) |-> IF p[i] < 0 THEN 0 - Swap(0 - p[i]) ELSE p[i]]
Exchange == N >= 2 /\ RefsOk(P.p, Slots) =>
  LET c == Canon(P.p, Slots, N)
      d == Canon(Swapped(P.p), [k \in 1..N |-> Slots[Swap(k)]], N)
  IN c.t = d.t /\ c.ord = d.ord
Export == tp # <<>> => PrintT("H " \o ToJson([t |-> Text, n |-> Size, ok |-> RefsOk(P.p, Slots)]))
=============================================================================
