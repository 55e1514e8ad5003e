------------------------------- MODULE MCLit -------------------------------
(***************************************************************************)
(* Spellings built piece by piece from an alphabet of fragments: the       *)
(* value of a literal is checked against laws that do not use the          *)
(* definitions in Lex, and every spelling is handed to the real code.      *)
(***************************************************************************)
EXTENDS Lit, IOUtils
CONSTANTS N, Alphabet, Open, Close
VARIABLES s, n

A1 == {"0", "1", "7", "8", "9", "a", "F", "b", "B", "x", "X", "u", "U", "l", "L", "z", "_", "'"}
A2 == {"0", "1", "9", ".", "e", "E", "+", "-", "f", "F", "l", "L", "u"}
A3 == {"a", "\\n", "\\0", "\\x", "4", "1", "8", "\\\\", "\\\"", "'", "\\u00e9", "\\U0001F34C", "\\377", "\\x80", "\\q", "\\e"}
A4 == {"a", "\\", "x", "n", "u", "0", "7", "F"}

Init == s = Open /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_<<s, n>>

Whole == s \o Close
Cs == Codes(Whole)

OneReading == ~(IntLit(Cs).ok /\ FloatLit(Cs).ok) /\ ~(StrLit(Cs).ok /\ ChrLit(Cs).ok)

\* a further digit multiplies by the base and adds
Base == IF Len(Cs) > 1 /\ Cs[1] = 48 /\ Lower(Cs[2]) = 120 THEN 16 ELSE IF Len(Cs) > 1 /\ Cs[1] = 48 /\ Lower(Cs[2]) = 98 THEN 2
        ELSE IF Cs # <<>> /\ Cs[1] = 48 THEN 8 ELSE 10
Positional ==
  LET i == IntLit(Cs) IN
  (i.ok /\ i.x = "") => \A d \in 0..7 :
     LET j == IntLit(Append(Cs, 48 + d)) IN
     d < Base => j.ok /\ j.x = "" /\ ZMk(FALSE, j.v) = ZAdd(ZMul(ZMk(FALSE, i.v), ZI(Base)), ZI(d))
SuffixKeepsValue ==
  LET i == IntLit(Cs) IN
  (i.ok /\ i.x = "") => \A sx \in {<<117>>, <<76>>, <<85, 108, 108>>, <<108, 108, 85>>, <<122>>} :
     LET j == IntLit(Cs \o sx) IN j.ok /\ j.v = i.v /\ j.x # ""
\* moving the decimal point is the same as changing the exponent
PointShift ==
  LET f == FloatLit(Cs) IN
  (f.ok /\ f.x = "" /\ ~(\E k \in 1..Len(Cs) : Lower(Cs[k]) = 101)) =>
     LET g == FloatLit(Cs \o <<101, 49>>) h == FloatLit(<<48>> \o Cs) IN
     g.ok /\ g.d = f.d /\ (f.d # <<>> => g.e = f.e + 1) /\ h.ok /\ h.d = f.d /\ h.e = f.e
\* concatenation of contents concatenates units, unless an escape swallows what follows
Concats ==
  LET t == StrLit(Cs) IN
  (t.ok /\ t.dom) => LET x == StrRun(<<Whole, "\"zz\"">>) IN x.dom => x.v = t.v \o (IF t.p = "" THEN <<122, 122>> ELSE <<122, 122>>)

Export == PrintT("H " \o ToJson([s |-> Whole]))
=============================================================================
