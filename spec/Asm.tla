-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* Inline assembly as text.  A template is read into what the assembler is *)
(* handed: a sequence of integers, a character code or - (N + 1) for a     *)
(* reference to operand N.  The same form is reached from the C template   *)
(* (GCC: % in extended assembly introduces operands and escapes, in basic  *)
(* assembly it is a character) and from the Rust one (braces), so that the *)
(* two can be compared.                                                    *)
(***************************************************************************)
EXTENDS CSyn

BadT == [ok |-> FALSE, p |-> <<>>]
Digit(c) == c \in 48..57
Letter(c) == c \in 65..90 \/ c \in 97..122
RECURSIVE Digits(_, _, _)
\* [n, i]: the number that starts at i
Digits(cs, i, n) == IF i <= Len(cs) /\ Digit(cs[i]) /\ n < 100 THEN Digits(cs, i + 1, 10 * n + cs[i] - 48) ELSE [n |-> n, i |-> i]
Cons(x, r) == IF r.ok THEN [r EXCEPT !.p = <<x>> \o @] ELSE r

RECURSIVE CTpl(_, _, _)
CTpl(cs, i, ext) ==
  IF i > Len(cs) THEN [ok |-> TRUE, p |-> <<>>]
  ELSE IF ~ext \/ cs[i] # 37 THEN Cons(cs[i], CTpl(cs, i + 1, ext))
  ELSE IF i = Len(cs) THEN BadT
  ELSE IF Digit(cs[i + 1]) THEN LET d == Digits(cs, i + 1, 0) IN Cons(0 - (d.n + 1), CTpl(cs, d.i, ext))
  ELSE IF cs[i + 1] \in {37, 123, 124, 125} THEN Cons(cs[i + 1], CTpl(cs, i + 2, ext))
  ELSE BadT

RECURSIVE RTpl(_, _)
RTpl(cs, i) ==
  IF i > Len(cs) THEN [ok |-> TRUE, p |-> <<>>]
  ELSE IF cs[i] = 123 /\ i < Len(cs) THEN
    (IF cs[i + 1] = 123 THEN Cons(123, RTpl(cs, i + 2))
     ELSE LET d == Digits(cs, i + 1, 0) IN
          IF d.i > i + 1 /\ d.i <= Len(cs) THEN (IF cs[d.i] = 125 THEN Cons(0 - (d.n + 1), RTpl(cs, d.i + 1)) ELSE BadT) ELSE BadT)
  ELSE IF cs[i] = 125 THEN (IF i < Len(cs) THEN (IF cs[i + 1] = 125 THEN Cons(125, RTpl(cs, i + 2)) ELSE BadT) ELSE BadT)
  ELSE IF cs[i] = 123 THEN BadT
  ELSE Cons(cs[i], RTpl(cs, i + 1))

\* lines without the blanks around them, empty lines left out
Blank(c) == c \in {32, 9, 13}
RECURSIVE TrimL(_)
TrimL(l) == IF l # <<>> /\ Blank(l[1]) THEN TrimL(Tail(l)) ELSE l
RECURSIVE TrimR(_)
TrimR(l) == IF l # <<>> /\ Blank(l[Len(l)]) THEN TrimR(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE LinesOf(_, _)
LinesOf(cs, cur) ==
  LET done == LET l == TrimR(TrimL(cur)) IN IF l = <<>> THEN <<>> ELSE <<l>> IN
  IF cs = <<>> THEN done ELSE IF cs[1] = 10 THEN done \o LinesOf(Tail(cs), <<>>) ELSE LinesOf(Tail(cs), Append(cur, cs[1]))
Lines(p) == LinesOf(p, <<>>)

\* operands in the order the text refers to them; slot[n + 1]: the operand that number n denotes
RECURSIVE Order(_, _, _)
Order(p, slot, acc) ==
  IF p = <<>> THEN acc
  ELSE IF p[1] < 0 /\ \A k \in 1..Len(acc) : acc[k] # slot[0 - p[1]] THEN Order(Tail(p), slot, Append(acc, slot[0 - p[1]]))
  ELSE Order(Tail(p), slot, acc)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RefsOk(p, slot) == \A i \in 1..Len(p) : p[i] < 0 => 0 - p[i] <= Len(slot)
\* [t: lines with references renumbered, ord: operands by number, rest: operands the text does not mention]
Canon(p, slot, n) ==
  LET ord == Order(p, slot, <<>>)
      q == [i \in 1..Len(p) |-> IF p[i] < 0 THEN 0 - IndexOf(ord, slot[0 - p[i]]) ELSE p[i]]
  IN [t |-> Lines(q), ord |-> ord, rest |-> SelectSeq([i \in 1..n |-> i], LAMBDA k : \A i \in 1..Len(ord) : ord[i] # k)]

\* registers a C constraint asks for, by the class in which Rust has them
In(cs, s) == \E i \in 1..Len(cs) : cs[i] \in {Codes(s)[j] : j \in 1..Len(s)}
ClassOf(cs) == IF cs = <<>> \/ \E i \in 1..Len(cs) : ~Letter(cs[i]) THEN "?"
               ELSE IF In(cs, "r") THEN "reg" ELSE IF In(cs, "Q") THEN "reg_abcd" ELSE IF In(cs, "q") THEN "reg_byte"
               ELSE IF In(cs, "f") THEN "freg" ELSE IF In(cs, "ig") THEN "reg" ELSE "?"
TiedTo(cs) == IF cs # <<>> /\ \A i \in 1..Len(cs) : Digit(cs[i]) THEN Digits(cs, 1, 0).n ELSE 0 - 1
OutDir(cs) == IF cs = <<>> THEN "?" ELSE IF cs[1] = 61 THEN "out" ELSE IF cs[1] = 43 THEN "inout" ELSE "?"
OutClass(cs) == LET r == Tail(cs) IN ClassOf(IF r # <<>> /\ r[1] = 38 THEN Tail(r) ELSE r)        \* & asks for what Rust always does

StartsAny(l, ss) == \E s \in ss : Len(l) >= Len(s) /\ SubSeq(l, 1, Len(s)) = Codes(s)
IsGlobal(p) == \E i \in 1..Len(Lines(p)) : StartsAny(Lines(p)[i], {".globl", ".global", ".section"})
\* notation only AT&T syntax has: an immediate, a register, an operand as an address
IsAtt(p) == \/ \E i \in 1..Len(p) : p[i] \in {36, 37}
            \/ \E i \in 1..(Len(p) - 1) : p[i] = 40 /\ p[i + 1] < 0
\* where a literal brace follows a parenthesis the two are written alike
AttOpen(p) == \E i \in 1..(Len(p) - 1) : p[i] = 40 /\ p[i + 1] = 123
=============================================================================
