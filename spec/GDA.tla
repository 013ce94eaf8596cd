-------------------------------- MODULE GDA ---------------------------------
(***************************************************************************)
(* Arithmetic of ericlagergren/decimal: what each operation has to give,   *)
(* as exact integer arithmetic followed by one rounding.                   *)
(*                                                                         *)
(* A value is a record [k, s, c, e, l]:                                    *)
(*    k  class: 0 finite, 1 infinity, 2 quiet NaN, 3 signaling NaN         *)
(*    s  sign bit                                                          *)
(*    c  coefficient (big integer) and e exponent, if finite               *)
(*    l  payload of a NaN; AnyPayload if it is not specified               *)
(*                                                                         *)
(* Exponents are TLC integers; the driver saturates them at +-Far, which   *)
(* also stands for the library's limits of +-10^18.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigInt

Far        == 2000000000          \* MaxScale, MaxPrecision
Unlimited  == 2000000001          \* UnlimitedPrecision
AnyPayload == <<>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Max3(a, b, c) == Max2(a, Max2(b, c))
\* saturating sum
SAdd(a, b) == IF a > 0 /\ b > 0 THEN IF a > Far - b THEN Far ELSE a + b
              ELSE IF a < 0 /\ b < 0 THEN IF a < -Far - b THEN -Far ELSE a + b
              ELSE a + b
SSub(a, b) == SAdd(a, -b)

-----------------------------------------------------------------------------
(* Conditions: sets of bits. *)
Clamped == 1  ConvSyntax == 2  DivByZero == 4  DivImpossible == 8  DivUndefined == 16
Inexact == 32  InsufStorage == 64  InvalidContext == 128  InvalidOp == 256
Overflow == 512  Rounded == 1024  Subnormal == 2048  Underflow == 4096
CondBits == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Conds(q) == {b \in CondBits : (q \div b) % 2 = 1}
FlagIf(c, f) == IF c THEN {f} ELSE {}

-----------------------------------------------------------------------------
(* Rounding modes and contexts. *)
HalfEven == 0  HalfUp == 1  Down == 2  Up == 3  Floor_ == 4  Ceiling == 5  HalfDown == 6

\* The context in effect, from the raw fields of a Context
Ctx(P, R, M, lo, hi) ==
  LET p    == IF P = 0 THEN 16 ELSE P
      emin == IF lo = 0 THEN -Far ELSE lo
      emax == IF hi = 0 THEN Far ELSE hi
      unl  == p = Unlimited
  IN [p |-> p, unl |-> unl, r |-> R, m |-> M, lo |-> emin, hi |-> emax,
      tiny |-> IF unl \/ emin <= -Far THEN -Far ELSE SSub(emin, p - 1),
      top  |-> IF unl \/ emax >= Far THEN Far ELSE SSub(emax, p - 1),
      ok   |-> P >= 0 /\ P <= Unlimited /\ R <= 6 /\ M <= 1 /\ hi <= Far /\ lo >= -Far]
CtxGo(cx) == cx.m = 1
DefCtx == Ctx(0, 0, 0, 0, 0)

-----------------------------------------------------------------------------
(* Values *)
Fin(s, c, e)  == [k |-> 0, s |-> s, c |-> c, e |-> e, l |-> BZero]
ZeroV(s, e)   == Fin(s, BZero, e)
InfV(s)       == [k |-> 1, s |-> s, c |-> BZero, e |-> 0, l |-> BZero]
QNaN(s)       == [k |-> 2, s |-> s, c |-> BZero, e |-> 0, l |-> AnyPayload]
NaNV(k, s, l) == [k |-> k, s |-> s, c |-> BZero, e |-> 0, l |-> l]
OneV          == Fin(0, BOne, 0)

IsFin(x)  == x.k = 0
IsInf(x)  == x.k = 1
IsNaN(x)  == x.k >= 2
IsSNaN(x) == x.k = 3
IsZero(x) == x.k = 0 /\ x.c = BZero
NonZero(x)== x.k = 0 /\ x.c # BZero
Adj(x)    == SAdd(x.e, BDigits(x.c) - 1)
SgnOf(x)  == IF IsNaN(x) \/ IsZero(x) THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
Signed(x) == IF x.s = 1 THEN BNeg(x.c) ELSE x.c
SignBit(b) == IF BSgn(b) < 0 THEN 1 ELSE 0
Xor(a, b) == (a + b) % 2
WithSign(x, s) == [x EXCEPT !.s = s]

\* An outcome: the value stored, the conditions raised, and whether a Go-mode receiver panics
Out(v, f)  == [v |-> v, f |-> f, inv |-> FALSE]
Inv(v, f)  == [v |-> v, f |-> f, inv |-> TRUE]     \* set with a panic in Go mode
Invalid(f) == Inv(QNaN(0), f)

\* w is an acceptable observation of v
Matches(v, w) == /\ v.k = w.k /\ v.s = w.s
                 /\ v.k = 0 => v.c = w.c /\ v.e = w.e
                 /\ v.k >= 2 /\ v.l # AnyPayload => v.l = w.l

-----------------------------------------------------------------------------
(* Rounding *)

\* How the digits dropped from C compare with one half of the last digit kept:
\* 0 exact, 1 below, 2 half, 3 above.  sticky: the true value is a bit larger than C.
DropClass(C, n, sticky) ==
  LET cls == IF n = 0 \/ C = BZero THEN 0
             ELSE IF n > BDigits(C) THEN 1
             ELSE LET r == BSub(C, BShift(BDrop(C, n), n))
                  IN IF r = BZero THEN 0
                     ELSE 2 + BCmp(r, BMul(BI(5), BPow10(n-1)))
  IN IF sticky THEN (IF cls = 0 THEN 1 ELSE IF cls = 2 THEN 3 ELSE cls) ELSE cls

Increments(r, s, odd, cls) ==
  /\ cls # 0
  /\ CASE r = HalfEven -> cls = 3 \/ (cls = 2 /\ odd)
       [] r = HalfUp   -> cls >= 2
       [] r = Down     -> FALSE
       [] r = Up       -> TRUE
       [] r = Floor_   -> s = 1
       [] r = Ceiling  -> s = 0
       [] r = HalfDown -> cls = 3

\* C without its last n digits, rounded
RoundOff(r, s, C, n, sticky) ==
  LET q == BDrop(C, n) IN IF Increments(r, s, BOdd(q), DropClass(C, n, sticky)) THEN BAdd(q, BOne) ELSE q

OverflowTo(cx, s) ==
  LET inf == CASE cx.r = Down -> FALSE
               [] cx.r = Floor_ -> s = 1
               [] cx.r = Ceiling -> s = 0
               [] OTHER -> TRUE
  IN IF inf \/ cx.unl THEN InfV(s)
     ELSE Fin(s, BSub(BPow10(cx.p), BOne), cx.top)
OverflowOut(cx, s) == Out(OverflowTo(cx, s), {Overflow, Inexact, Rounded})

(* The value with sign s nearest to C * 10^e (a bit more, if sticky) in the    *)
(* context: one rounding to the precision (if toP) and the exponent range.     *)
Finish(cx, s, C, e, sticky, toP) ==
  IF C = BZero /\ ~sticky
  THEN IF e > cx.hi THEN Out(ZeroV(s, cx.hi), {Clamped})
       ELSE IF e < cx.tiny THEN Out(ZeroV(s, cx.tiny), {Clamped})
       ELSE Out(ZeroV(s, e), {})
  ELSE
  LET D   == BDigits(C)
      adj == SAdd(e, D - 1)
      sub == adj < cx.lo
      t   == Max3(e, IF toP /\ ~cx.unl THEN SSub(SAdd(e, D), cx.p) ELSE e, IF sub THEN cx.tiny ELSE e)
  IN IF adj > cx.hi THEN OverflowOut(cx, s)
     ELSE LET n   == t - e
              cls == DropClass(C, n, sticky)
              q   == IF n = 0 THEN C ELSE RoundOff(cx.r, s, C, n, sticky)
              \* rounding carried into a digit too many
              car == n > 0 /\ ~sub /\ BDigits(q) > D - n
              q1  == IF car THEN BDrop(q, 1) ELSE q
              t1  == IF car THEN t + 1 ELSE t
              fl  == FlagIf(n > 0, Rounded) \cup FlagIf(cls # 0, Inexact) \cup FlagIf(sub, Subnormal)
                     \cup FlagIf(sub /\ cls # 0, Underflow) \cup FlagIf(q1 = BZero, Clamped)
          IN IF q1 # BZero /\ SAdd(t1, BDigits(q1) - 1) > cx.hi
             THEN [OverflowOut(cx, s) EXCEPT !.f = @ \cup fl]
             ELSE Out(Fin(s, q1, t1), fl)

\* Finish for +, -, *, FMA: not rounded to the precision in Go mode
FinishA(cx, s, C, e) == Finish(cx, s, C, e, FALSE, ~CtxGo(cx))
FinishV(cx, x) == IF IsFin(x) THEN FinishA(cx, x.s, x.c, x.e) ELSE Out(x, {})

-----------------------------------------------------------------------------
(* NaN operands *)
HasNaN(x, y) == IsNaN(x) \/ IsNaN(y)
NaNOut(x, y) ==
  LET sig == IsSNaN(x) \/ IsSNaN(y)
      s   == IF sig THEN (IF IsSNaN(x) THEN x.s ELSE y.s)
             ELSE IF IsNaN(x) THEN x.s ELSE y.s
  IN Inv(QNaN(s), FlagIf(sig, InvalidOp))

BadCtx == Inv(QNaN(0), {InvalidContext})
\* unlimited precision where no result would be precise enough
TooPrecise == Invalid({InvalidOp, InvalidContext, InsufStorage})

-----------------------------------------------------------------------------
(* Addition, multiplication *)

\* x is exact; it may have to be aligned with an operand that is so far away
\* that only its sign matters: it is replaced with one unit at exponent k.
AddFinite(cx, x, y) ==
  LET hi == IF x.e < y.e THEN y ELSE x
      lo == IF x.e < y.e THEN x ELSE y
      k0 == hi.e + Min2(0, BDigits(hi.c) - cx.p) - 3
      far == ~CtxGo(cx) /\ ~cx.unl /\ hi.c # BZero /\ hi.e - lo.e > 1200
      \* the digits of lo are below k0
      lo1 == IF ~far THEN lo
             ELSE IF lo.c = BZero THEN [lo EXCEPT !.e = Max2(lo.e, k0)]
             ELSE IF Adj(lo) < k0 - 1 THEN [lo EXCEPT !.c = BOne, !.e = k0 - 1]
             ELSE lo
      C  == BAdd(BShift(Signed(hi), hi.e - lo1.e), Signed(lo1))
      s  == IF C # BZero THEN SignBit(C)
            ELSE IF x.s = y.s THEN x.s
            ELSE IF cx.r = Floor_ THEN 1 ELSE 0
  IN FinishA(cx, s, BAbs(C), lo1.e)

Add(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE IF IsInf(x) THEN IF IsInf(y) /\ x.s # y.s THEN Invalid({InvalidOp}) ELSE Out(InfV(x.s), {})
  ELSE IF IsInf(y) THEN Out(InfV(y.s), {})
  ELSE AddFinite(cx, x, y)

Sub(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE Add(cx, x, WithSign(y, 1 - y.s))

MulExact(x, y) == Fin(Xor(x.s, y.s), BMul(x.c, y.c), SAdd(x.e, y.e))
Mul0(x, y) ==     \* unrounded
  IF IsFin(x) /\ IsFin(y) THEN Out(MulExact(x, y), {})
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE IF IsZero(x) \/ IsZero(y) THEN Invalid({InvalidOp})
  ELSE Out(InfV(Xor(x.s, y.s)), {})
Mul(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE LET m == Mul0(x, y) IN IF IsFin(m.v) THEN FinishV(cx, m.v) ELSE m

FMA(cx, x, y, u) ==
  IF ~cx.ok THEN BadCtx
  ELSE LET m == Mul0(x, y)
       IN IF InvalidOp \in m.f THEN m
          ELSE LET a == Add(cx, m.v, u)
               IN IF m.inv THEN [a EXCEPT !.inv = TRUE] ELSE a

-----------------------------------------------------------------------------
(* Division *)
\* C*10^e without trailing zeros, but with an exponent of at most ideal: <<C, e>>
StripTo(C, e, ideal) ==
  IF e >= ideal \/ C = BZero THEN <<C, e>>
  ELSE LET n == Min2(BTrail(C), ideal - e) IN <<BDrop(C, n), e + n>>

QuoFinite(cx, x, y) ==
  LET s     == Xor(x.s, y.s)
      ideal == SSub(x.e, y.e)
      Dx    == BDigits(x.c)
      Dy    == BDigits(y.c)
      n     == IF cx.unl THEN 4 * Dy + 1 ELSE Max2(0, cx.p + 2 + Dy - Dx)
      num   == BShift(x.c, n)
      q     == BQuo(num, y.c)
      exact == BRem(num, y.c) = BZero
      st    == IF exact THEN StripTo(q, ideal - n, ideal) ELSE <<q, ideal - n>>
  IN IF cx.unl /\ ~exact
     THEN Invalid({InvalidOp, InvalidContext, InsufStorage, Inexact, Rounded})
     ELSE Finish(cx, s, st[1], st[2], ~exact, TRUE)

Quo(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE LET s == Xor(x.s, y.s) IN
    IF IsInf(x) THEN IF IsInf(y) THEN Invalid({InvalidOp}) ELSE Out(InfV(s), {})
    ELSE IF IsInf(y) THEN Out(ZeroV(s, cx.tiny), {Clamped})
    ELSE IF IsZero(y) THEN IF IsZero(x) THEN Invalid({InvalidOp, DivUndefined}) ELSE Out(InfV(s), {DivByZero})
    ELSE IF IsZero(x) THEN Finish(cx, s, BZero, SSub(x.e, y.e), FALSE, TRUE)
    ELSE QuoFinite(cx, x, y)

\* <<q, r>> with |x| = q*|y| + r, r*10^min(ex,ey)
DivMod(x, y) ==
  LET e == Min2(x.e, y.e)
      a == BShift(x.c, x.e - e)
      b == BShift(y.c, y.e - e)
  IN <<BQuo(a, b), BRem(a, b)>>
\* if |x| < |y| by far, avoid the shift
DivMod1(x, y) == IF Adj(x) < Adj(y) THEN <<BZero, BZero>> ELSE DivMod(x, y)
QuoTooLong(cx, x, y) == ~cx.unl /\ (IF Adj(x) - Adj(y) > cx.p THEN TRUE ELSE BDigits(DivMod1(x, y)[1]) > cx.p)

\* the remainder is x itself, at the exponent min(ex, ey), if |x| < |y|
RemFinite(cx, x, y) ==
  LET e == Min2(x.e, y.e)
      r == IF Adj(x) < Adj(y) THEN BShift(x.c, x.e - e) ELSE DivMod(x, y)[2]
  IN FinishA(cx, x.s, r, e)

QuoInt(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE LET s == Xor(x.s, y.s) IN
    IF IsInf(x) THEN IF IsInf(y) THEN Invalid({InvalidOp}) ELSE Out(InfV(s), {})
    ELSE IF IsInf(y) THEN Out(ZeroV(s, 0), {})
    ELSE IF IsZero(y) THEN IF IsZero(x) THEN Invalid({InvalidOp, DivUndefined}) ELSE Out(InfV(s), {DivByZero})
    ELSE IF IsZero(x) THEN Finish(cx, s, BZero, 0, FALSE, FALSE)
    ELSE IF QuoTooLong(cx, x, y) THEN Invalid({DivImpossible})
    ELSE Finish(cx, s, DivMod1(x, y)[1], 0, FALSE, FALSE)

Rem(cx, x, y) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF HasNaN(x, y) THEN NaNOut(x, y)
  ELSE IF IsInf(x) THEN Invalid({InvalidOp})
  ELSE IF IsInf(y) THEN FinishV(cx, x)
  ELSE IF IsZero(y) THEN IF IsZero(x) THEN Invalid({InvalidOp, DivUndefined}) ELSE Invalid({InvalidOp, DivByZero})
  ELSE IF IsZero(x) THEN Finish(cx, x.s, BZero, Min2(x.e, y.e), FALSE, FALSE)
  ELSE IF QuoTooLong(cx, x, y) THEN Invalid({DivImpossible})
  ELSE RemFinite(cx, x, y)

\* both: <<quotient, remainder>>
QuoRem(cx, x, y) ==
  IF ~cx.ok THEN <<BadCtx, BadCtx>>
  ELSE IF HasNaN(x, y) THEN <<NaNOut(x, y), Out(NaNOut(x, y).v, {})>>
  ELSE LET s == Xor(x.s, y.s) IN
    IF IsInf(x) THEN IF IsInf(y) THEN <<Invalid({InvalidOp}), Out(QNaN(0), {})>>
                     ELSE <<Out(InfV(s), {}), Out(InfV(x.s), {})>>
    ELSE IF IsInf(y) THEN <<Out(ZeroV(s, cx.tiny), {Clamped}), FinishV(cx, x)>>
    ELSE IF IsZero(y) THEN IF IsZero(x) THEN <<Invalid({InvalidOp, DivUndefined}), Invalid({InvalidOp, DivUndefined})>>
                           ELSE <<Out(InfV(s), {DivByZero}), Out(InfV(x.s), {DivByZero})>>
    ELSE IF IsZero(x) THEN <<Finish(cx, s, BZero, 0, FALSE, FALSE), Finish(cx, x.s, BZero, Min2(x.e, y.e), FALSE, FALSE)>>
    ELSE IF QuoTooLong(cx, x, y) THEN <<Invalid({DivImpossible}), Invalid({DivImpossible})>>
    ELSE <<Finish(cx, s, DivMod1(x, y)[1], 0, FALSE, FALSE), RemFinite(cx, x, y)>>

-----------------------------------------------------------------------------
(* Square root *)
HalfFloor(e) == (e - (e % 2)) \div 2
SqrtFinite(cx, x) ==
  LET ideal == HalfFloor(x.e)
      odd   == x.e % 2
      d     == IF cx.unl THEN 0 ELSE Max2(0, cx.p + 3 - (BDigits(x.c) + odd) \div 2)
      C     == BShift(x.c, odd + 2*d)
      r     == BSqrt(C)
      exact == BMul(r, r) = C
      st    == IF exact THEN StripTo(r, ideal - d, ideal) ELSE <<r, ideal - d>>
  IN IF cx.unl /\ ~exact THEN TooPrecise
     ELSE Finish([cx EXCEPT !.r = HalfEven], 0, st[1], st[2], ~exact, TRUE)
Sqrt(cx, x) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF IsNaN(x) THEN NaNOut(x, x)
  ELSE IF IsZero(x) THEN Finish(cx, x.s, BZero, HalfFloor(x.e), FALSE, TRUE)
  ELSE IF x.s = 1 THEN Invalid({InvalidOp})
  ELSE IF IsInf(x) THEN Out(InfV(0), {})
  ELSE SqrtFinite(cx, x)

-----------------------------------------------------------------------------
(* Rounding operations *)

\* z rounded to the exponent n (a scale of -n)
QuantizeE(cx, z, n) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF IsInf(z) THEN Invalid({InvalidOp})
  ELSE IF IsNaN(z) THEN NaNOut(z, z)
  ELSE IF n > cx.hi \/ n < cx.tiny THEN Invalid({InvalidOp})
  ELSE IF IsZero(z) THEN Out(ZeroV(z.s, n), {})
  ELSE IF ~cx.unl /\ BDigits(z.c) + (z.e - n) > cx.p THEN Invalid({InvalidOp})
  ELSE LET d   == n - z.e
           cls == IF d > 0 THEN DropClass(z.c, d, FALSE) ELSE 0
           q   == IF d > 0 THEN RoundOff(cx.r, z.s, z.c, d, FALSE) ELSE BShift(z.c, -d)
       IN IF ~cx.unl /\ BDigits(q) > cx.p THEN Invalid({InvalidOp})
          ELSE IF SAdd(n, BDigits(q) - 1) > cx.hi THEN Invalid({InvalidOp})
          ELSE Out(Fin(z.s, q, n), FlagIf(d > 0, Rounded) \cup FlagIf(cls # 0, Inexact)
                   \cup FlagIf(q # BZero /\ SAdd(n, BDigits(q) - 1) < cx.lo, Subnormal))
Quantize(cx, z, scale) == QuantizeE(cx, z, -scale)

\* z rounded to an integer in mode r, with all of its digits
ToInt(r, z) ==
  IF IsNaN(z) THEN NaNOut(z, z)
  ELSE IF IsInf(z) \/ z.e >= 0 THEN Out(z, {})
  ELSE IF z.c = BZero THEN Out(ZeroV(z.s, 0), {})
  ELSE Out(Fin(z.s, RoundOff(r, z.s, z.c, -z.e, FALSE), 0),
           {Rounded} \cup FlagIf(DropClass(z.c, -z.e, FALSE) # 0, Inexact))
RoundToInt(cx, z) == IF ~cx.ok THEN BadCtx ELSE ToInt(cx.r, z)
Floor(cx, x) == IF ~cx.ok THEN BadCtx ELSE ToInt(Floor_, x)
Ceil(cx, x)  == IF ~cx.ok THEN BadCtx ELSE ToInt(Ceiling, x)

\* rounds in Go mode, too
Round(cx, z) == IF ~cx.ok THEN BadCtx
                ELSE IF IsFin(z) THEN Finish(cx, z.s, z.c, z.e, FALSE, TRUE) ELSE Out(z, {})
Set(cx, x)   == IF ~cx.ok THEN BadCtx ELSE FinishV(cx, x)

\* rounded, then without trailing zeros
StripAll(v) == IF ~IsFin(v) THEN v
               ELSE IF v.c = BZero THEN ZeroV(v.s, 0)
               ELSE Fin(v.s, BDrop(v.c, BTrail(v.c)), v.e + BTrail(v.c))
Reduce(cx, z) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF IsNaN(z) THEN NaNOut(z, z)
  ELSE LET o == Round(cx, z) IN [o EXCEPT !.v = StripAll(@)]

Abs(cx, x) == IF ~cx.ok THEN BadCtx ELSE IF IsNaN(x) THEN NaNOut(x, x) ELSE FinishV(cx, WithSign(x, 0))
\* minus: 0 - x
Neg(cx, x) == IF ~cx.ok THEN BadCtx ELSE IF IsNaN(x) THEN NaNOut(x, x)
              ELSE IF IsZero(x) /\ cx.r # Floor_ THEN FinishV(cx, WithSign(x, 0))
              ELSE FinishV(cx, WithSign(x, 1 - x.s))

\* adjacent numbers: rounded always, without conditions
Step_(cx, x, up) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF IsNaN(x) THEN NaNOut(x, x)
  ELSE IF IsInf(x) THEN IF (x.s = 0) = up THEN Out(x, {})
                        ELSE IF cx.unl THEN TooPrecise
                        ELSE Out(Fin(x.s, BSub(BPow10(cx.p), BOne), cx.top), {})
  ELSE IF cx.unl THEN TooPrecise
  ELSE LET c1 == [cx EXCEPT !.m = 0, !.r = IF up THEN Ceiling ELSE Floor_]
           te == Min2(x.e, cx.tiny) - 1
           \* one step of any size below the last digit does
           k  == Min2(x.e, x.e + BDigits(x.c) - cx.p) - 3
           d  == Fin(IF up THEN 0 ELSE 1, BOne, IF IsZero(x) THEN te ELSE Max2(te, k))
       IN [AddFinite(c1, x, d) EXCEPT !.f = {}]
NextPlus(cx, x)  == Step_(cx, x, TRUE)
NextMinus(cx, x) == Step_(cx, x, FALSE)

-----------------------------------------------------------------------------
(* Quiet operations *)
CopyAbs(x)     == WithSign(x, 0)
CopyNeg(x)     == WithSign(x, 1 - x.s)
CopySign(x, y) == WithSign(x, y.s)

-----------------------------------------------------------------------------
(* Order *)

\* |x| compared with |y|, both finite
CmpMag(x, y) ==
  IF x.c = BZero \/ y.c = BZero THEN (IF x.c = y.c THEN 0 ELSE IF x.c = BZero THEN -1 ELSE 1)
  ELSE IF Adj(x) # Adj(y) THEN (IF Adj(x) < Adj(y) THEN -1 ELSE 1)
  ELSE LET e == Min2(x.e, y.e) IN BCmp(BShift(x.c, x.e - e), BShift(y.c, y.e - e))
CmpAbsV(x, y) ==
  IF HasNaN(x, y) THEN 0
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF x.k = y.k THEN 0 ELSE IF IsInf(x) THEN 1 ELSE -1)
  ELSE CmpMag(x, y)
Cmp(x, y) ==
  IF HasNaN(x, y) THEN 0
  ELSE IF SgnOf(x) # SgnOf(y) THEN (IF SgnOf(x) < SgnOf(y) THEN -1 ELSE 1)
  ELSE SgnOf(x) * CmpAbsV(x, y)

\* -2 -qNaN, -1 -sNaN, 0 numbers, 1 sNaN, 2 qNaN
NaNRank(x) == IF ~IsNaN(x) THEN 0 ELSE (IF IsSNaN(x) THEN 1 ELSE 2) * (IF x.s = 1 THEN -1 ELSE 1)
ICmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpTotal(x, y) ==
  LET g == IF x.s = 1 THEN -1 ELSE 1 IN
  IF NaNRank(x) # NaNRank(y) THEN ICmp(NaNRank(x), NaNRank(y))
  ELSE IF NaNRank(x) # 0 THEN g * BCmp(x.l, y.l)
  ELSE IF x.s # y.s THEN ICmp(y.s, x.s)
  ELSE IF Cmp(x, y) # 0 THEN Cmp(x, y)
  ELSE IF IsInf(x) THEN 0
  ELSE g * ICmp(x.e, y.e)
CmpTotalAbs(x, y) == CmpTotal(CopyAbs(x), CopyAbs(y))

-----------------------------------------------------------------------------
(* Predicates *)
\* emin is that of the decimal's own context
Class(x, emin) ==
  CASE IsSNaN(x) -> "sNaN"
    [] x.k = 2   -> "NaN"
    [] IsInf(x)  -> IF x.s = 1 THEN "-Infinity" ELSE "+Infinity"
    [] IsZero(x) -> IF x.s = 1 THEN "-Zero" ELSE "+Zero"
    [] Adj(x) < emin -> IF x.s = 1 THEN "-Subnormal" ELSE "+Subnormal"
    [] OTHER     -> IF x.s = 1 THEN "-Normal" ELSE "+Normal"
IsIntV(x) == IsFin(x) /\ (x.c = BZero \/ x.e >= 0 \/ BTrail(x.c) >= -x.e)

\* the integral part, with sign (moderate exponents only)
Trunc(x) == IF x.c = BZero THEN BZero
            ELSE IF x.e >= 0 THEN BShift(Signed(x), x.e)
            ELSE IF -x.e >= BDigits(x.c) THEN BZero
            ELSE BDrop(Signed(x), -x.e)
-----------------------------------------------------------------------------
(* Values of rationals and binary floats *)

\* n/d, d > 0
SetRat(cx, n, d) ==
  IF ~cx.ok THEN BadCtx
  ELSE IF BRem(n, d) = BZero THEN FinishA(cx, SignBit(n), BAbs(BQuo(n, d)), 0)
  ELSE QuoFinite(cx, Fin(SignBit(n), BAbs(n), 0), Fin(0, d, 0))

\* m*2^e with the largest exponent (of ten) that isn't positive; cl: 0 finite, 1 infinity, 2 NaN
FloatValue(cl, s, e, m) ==
  IF cl = 1 THEN InfV(s)
  ELSE IF cl = 2 THEN NaNV(2, s, BZero)
  ELSE IF m = BZero THEN ZeroV(s, 0)
  ELSE IF e >= 0 THEN Fin(s, BMul(m, BPow(BI(2), e)), 0)
  ELSE LET Fits(k) == BRem(m, BPow(BI(2), -e-k)) = BZero
           n == CHOOSE k \in 0..-e : Fits(k) /\ (k = 0 \/ ~Fits(k-1))
       IN Fin(s, BMul(BQuo(m, BPow(BI(2), -e-n)), BPow(BI(5), n)), -n)

\* C*10^e rounded half-even to p bits, with an exponent of at least emin: <<m, e>> is m*2^e
RoundBin(C, e, p, emin) ==
  IF C = BZero THEN <<BZero, 0>>
  ELSE LET num == IF e > 0 THEN BShift(C, e) ELSE C
           den == IF e < 0 THEN BPow10(-e) ELSE BOne
           k0  == BBits(num) - BBits(den) - p
           two(n) == BPow(BI(2), n)
           at(k) == LET a == IF k < 0 THEN BMul(num, two(-k)) ELSE num
                        b == IF k > 0 THEN BMul(den, two(k)) ELSE den
                        q == BQuo(a, b)
                        h == BCmp(BMul(BI(2), BRem(a, b)), b)
                    IN <<q, IF h > 0 \/ (h = 0 /\ BOdd(q)) THEN BAdd(q, BOne) ELSE q>>
           k1  == IF BBits(at(k0)[1]) > p THEN k0 + 1 ELSE IF BBits(at(k0)[1]) < p THEN k0 - 1 ELSE k0
           k2  == Max2(k1, emin)
       IN <<at(k2)[2], k2>>
\* m*2^e = n*2^f
SameBin(m, e, n, f) == LET g == Min2(e, f) IN BMul(m, BPow(BI(2), e - g)) = BMul(n, BPow(BI(2), f - g))
=============================================================================
