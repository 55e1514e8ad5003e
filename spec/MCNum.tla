------------------------------- MODULE MCNum -------------------------------
(* Laws of Num on small numbers: the rounded operations agree with each other and with the integers. *)
EXTENDS Num
VARIABLES a, b, p
Init == a \in (0 - 6)..9 /\ b \in (0 - 6)..7 /\ p \in {3, 24}
Next == FALSE /\ UNCHANGED <<a, b, p>>
Spec == Init /\ [][Next]_<<a, b, p>>
F(n) == FInt(ZI(n), p)
Exact(n) == FInt(ZI(n), 60)
Laws ==
  /\ FAdd(F(a), F(b), p) = FAdd(F(b), F(a), p)
  /\ FMul(F(a), F(b), p) = FMul(F(b), F(a), p)
  /\ FAdd(Exact(a), Exact(b), p) = F(a + b)
  /\ FMul(Exact(a), Exact(b), p) = F(a * b)
  /\ FNeg(F(a)) = F(0 - a)
  /\ b # 0 => FDiv(FMul(Exact(a), Exact(b), 60), Exact(b), p) = F(a)
  /\ b # 0 => FCmp(FMul(FDiv(Exact(a), Exact(b), 50), Exact(b), 40), FRound(Exact(a), 40)) = 0
  /\ FCmp(Exact(a), Exact(b)) = (IF a < b THEN 0 - 1 ELSE IF a > b THEN 1 ELSE 0)
  /\ FTrunc(Exact(a)) = ZI(a)
  /\ b # 0 => FTrunc(FDiv(Exact(a), Exact(b), 53)) = ZDiv(ZI(a), ZI(b))
  /\ FDec(<<5>>, 0, p) = [m |-> ZI(1), e |-> 0 - 1]
  /\ FDec(<<1, 2, 5>>, 3, 24) = FInt(ZI(125), 24)
=============================================================================
