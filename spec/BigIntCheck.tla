---------------------------- MODULE BigIntCheck -----------------------------
(* The module override of BigInt is equal to the definitions in BigIntDef. *)
EXTENDS BigInt, TLC
D == INSTANCE BigIntDef

Small == (-12..12) \cup {99, 100, 101, 9999, 10000, 10001, -9999, -10000, 123456, 99999999, 100000000, 2147483647, -2147483647}
\* larger ones, built with the definitions
Large == {D!BAdd(D!BMul(D!BI(s), D!BPow10(k)), D!BI(t)) : s \in {-7, 1, 25, 99}, k \in {5, 12, 19}, t \in {-1, 0, 40}}
Nums  == {D!BI(i) : i \in Small} \cup Large

VARIABLES a, b
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED <<a, b>>
Nat_(x) == D!BAbs(x)
Same ==
  /\ BCmp(a,b) = D!BCmp(a,b) /\ BAdd(a,b) = D!BAdd(a,b) /\ BSub(a,b) = D!BSub(a,b) /\ BMul(a,b) = D!BMul(a,b)
  /\ b # <<0>> => BQuo(a,b) = D!BQuo(a,b) /\ BRem(a,b) = D!BRem(a,b)
  /\ BSgn(b) > 0 => BFloor(a,b) = D!BFloor(a,b)
  /\ b = D!BI(1) =>
       /\ BSgn(a) = D!BSgn(a) /\ BNeg(a) = D!BNeg(a) /\ BAbs(a) = D!BAbs(a) /\ BDigits(a) = D!BDigits(a)
       /\ BOdd(a) = D!BOdd(a) /\ BBits(a) = D!BBits(a) /\ BDec(a) = D!BDec(a) /\ BParse(BDec(a)) = D!BParse(BDec(a))
       /\ a # <<0>> => BTrail(a) = D!BTrail(a)
       /\ BSqrt(Nat_(a)) = D!BSqrt(Nat_(a))
       /\ \A n \in 0..9 : BPow10(n) = D!BPow10(n) /\ BShift(a,n) = D!BShift(a,n) /\ BDrop(a,n) = D!BDrop(a,n)
       /\ \A n \in 0..4 : BPow(a,n) = D!BPow(a,n)
       /\ (BDigits(a) <= 9) => BInt(a) = D!BInt(a) /\ BI(BInt(a)) = D!BI(D!BInt(a)) /\ BI(BInt(a)) = a
=============================================================================
