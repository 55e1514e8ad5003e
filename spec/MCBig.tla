------------------------------- MODULE MCBig -------------------------------
(* Big against TLC's own integers, on every pair of small numbers and on chosen large ones. *)
EXTENDS Big
CONSTANT S
VARIABLES a, b
Init == a \in S /\ b \in S
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
TDiv(x, y) == IF (x < 0) # (y < 0) THEN 0 - (Abs(x) \div Abs(y)) ELSE Abs(x) \div Abs(y)
MCS == (0 - 5)..5 \cup {127, 128, 129, 255, 256, 257, 0 - 127, 0 - 128, 0 - 129, 0 - 255, 0 - 256, 1000, 32767, 0 - 32768, 46340}
AgreesWithIntegers ==
  LET x == ZI(a) y == ZI(b) IN
  /\ ZSmall(x) = a
  /\ ZAdd(x, y) = ZI(a + b) /\ ZSub(x, y) = ZI(a - b) /\ ZMul(x, y) = ZI(a * b)
  /\ (b # 0 => ZDiv(x, y) = ZI(TDiv(a, b)) /\ ZRem(x, y) = ZI(a - b * TDiv(a, b)))
  /\ ZCmp(x, y) = (IF a < b THEN 0 - 1 ELSE IF a > b THEN 1 ELSE 0)
  /\ ZWrap(x, 8, FALSE) = ZI(a % 256) /\ ZWrap(x, 8, TRUE) = ZI(IF a % 256 > 127 THEN (a % 256) - 256 ELSE a % 256)
  /\ ZFits(x, 8, TRUE) = (a \in (0 - 128)..127) /\ ZFits(x, 16, FALSE) = (a \in 0..65535)
  /\ ZFloorShr(x, 3) = ZI(a \div 8)
  /\ ZAdd(ZBits("&", x, y, 32), ZBits("|", x, y, 32)) = ZI(a + b)
  /\ ZAdd(ZBits("^", x, y, 32), ZMul(ZI(2), ZBits("&", x, y, 32))) = ZI(a + b)
\* 0.1 and 1/3-like decimals, halfway cases
RoundsRight ==
  /\ NearestBin(<<5>>, 0, 4) = [b |-> <<1, 0, 0, 0>>, e |-> 0 - 1]
  /\ NearestBin(<<1, 7>>, 2, 4) = [b |-> <<1, 0, 0, 0>>, e |-> 4]        \* 17 -> 16 (tie to even)
  /\ NearestBin(<<1, 9>>, 2, 4) = [b |-> <<1, 0, 1, 0>>, e |-> 4]        \* 19 -> 20
  /\ NearestBin(<<3, 1>>, 2, 4) = [b |-> <<1, 0, 0, 0>>, e |-> 5]        \* 31 -> 32
  /\ NearestBin(<<1>>, 0, 6) = [b |-> <<1, 1, 0, 0, 1, 1>>, e |-> 0 - 4] \* 0.1
=============================================================================
