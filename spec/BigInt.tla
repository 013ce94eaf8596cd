------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size for TLC, whose own integers have 32 bits.          *)
(*                                                                         *)
(* An integer is the tuple <<sign, l0, l1, ...>>: its sign (-1, 0 or 1)    *)
(* followed by the limbs of its absolute value in base 10^4, least         *)
(* significant first, without leading zeros.  Zero is <<0>>.               *)
(*                                                                         *)
(* Every operator below is defined in TLA+.  TLC evaluates most of them    *)
(* with the module override ../java/BigInt.java (java.math.BigInteger);    *)
(* BigIntCheck.tla checks that the override is equal to the definitions,   *)
(* which it gets from module BigIntDef, a copy without an override.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL D == INSTANCE BigIntDef

BI(i)       == D!BI(i)         \* the big integer that is equal to i
BInt(a)     == D!BInt(a)       \* the TLC integer that is equal to a; it must fit
BSgn(a)     == D!BSgn(a)       \* -1, 0, 1
BNeg(a)     == D!BNeg(a)
BAbs(a)     == D!BAbs(a)
BCmp(a, b)  == D!BCmp(a, b)    \* -1, 0, 1
BAdd(a, b)  == D!BAdd(a, b)
BSub(a, b)  == D!BSub(a, b)
BMul(a, b)  == D!BMul(a, b)
BQuo(a, b)  == D!BQuo(a, b)    \* truncated towards zero
BRem(a, b)  == D!BRem(a, b)    \* a - b*BQuo(a, b)
BFloor(a,b) == D!BFloor(a, b)  \* quotient, rounded down; b > 0
BPow10(n)   == D!BPow10(n)
BShift(a,n) == D!BShift(a, n)  \* a * 10^n
BDrop(a, n) == D!BDrop(a, n)   \* BQuo(a, 10^n)
BDigits(a)  == D!BDigits(a)    \* number of decimal digits of |a|; 1 for zero
BTrail(a)   == D!BTrail(a)     \* number of trailing zeros of a # 0
BPow(a, n)  == D!BPow(a, n)
BSqrt(a)    == D!BSqrt(a)      \* floor of the square root of a >= 0
BOdd(a)     == D!BOdd(a)
BBits(a)    == D!BBits(a)      \* bit length of |a|
BDec(a)     == D!BDec(a)       \* ASCII codes of the digits of |a|
BParse(s)   == D!BParse(s)     \* number denoted by a sequence of ASCII digits

\* Arctangent-like helper: used by Reals.tla only.
BEq(a, b)   == a = b
BLe(a, b)   == BCmp(a, b) <= 0
BLt(a, b)   == BCmp(a, b) < 0
BMin(a, b)  == IF BLe(a, b) THEN a ELSE b
BMax(a, b)  == IF BLe(a, b) THEN b ELSE a
BZero       == <<0>>
BOne        == <<1, 1>>
=============================================================================
