-------------------------------- MODULE Reals ---------------------------------
(***************************************************************************)
(* The functions of real analysis: exponential, logarithms, powers,        *)
(* trigonometric functions and their inverses, Hypot, Pi, E, continued     *)
(* fractions and series.                                                   *)
(*                                                                         *)
(* The true value of a function is computed with integers: the integer n   *)
(* at W stands for n/10^W.  W leaves at least a dozen guard digits: the    *)
(* relative error of the T below is less than 10^-(p+8) where p is the     *)
(* precision.  The result must be what rounding (GDA.tla's Finish) makes   *)
(* of some number within 0.02 units of the p-th digit of T; so it is       *)
(* within 0.52 units in the last place of the true value in the modes that *)
(* round to nearest, within 1.02 in the others, and overflows, underflows  *)
(* and raises conditions just as the operations of arithmetic do.          *)
(***************************************************************************)
EXTENDS GDA, Digits

FxMul(a, b, W) == BDrop(BMul(a, b), W)
FxDiv(a, b, W) == BQuo(BShift(a, W), b)
Fx1(W) == BPow10(W)
\* c*10^e, signed
FxOf(c, e, W) == IF e + W >= 0 THEN BShift(c, e + W) ELSE BDrop(c, -(e + W))
FxVal(x, W) == FxOf(Signed(x), x.e, W)
\* n at V as a number at W
FxAt(n, V, W) == IF W >= V THEN BShift(n, W - V) ELSE BDrop(n, V - W)

-----------------------------------------------------------------------------
(* Series.  All arguments are not negative. *)

\* acc + t*r/k + t*r^2/(k(k+1)) + ...
RECURSIVE ExpSum(_, _, _, _, _)
ExpSum(r, t, k, acc, W) ==
  LET u == BQuo(FxMul(t, r, W), BI(k))
  IN IF u = BZero THEN acc ELSE ExpSum(r, u, k + 1, BAdd(acc, u), W)
\* alternating sums of z2^j t / ((k+1)(k+2)...(k+2j)): sine and cosine
RECURSIVE TrigSum(_, _, _, _, _, _)
TrigSum(z2, t, k, sg, acc, W) ==
  LET u == BQuo(FxMul(t, z2, W), BI((k + 1) * (k + 2)))
  IN IF u = BZero THEN acc
     ELSE TrigSum(z2, u, k + 2, -sg, IF sg < 0 THEN BSub(acc, u) ELSE BAdd(acc, u), W)
\* sum of (sg)^j z^(2j+1)/(2j+1), from the power t = z^k on: arctangent (sg = -1) and its hyperbolic sister
RECURSIVE ArcSum(_, _, _, _, _, _, _)
ArcSum(z2, t, k, sg, cur, acc, W) ==
  LET u == FxMul(t, z2, W)
      v == BQuo(u, BI(k + 2))
  IN IF v = BZero THEN acc
     ELSE ArcSum(z2, u, k + 2, sg, sg * cur, IF sg * cur < 0 THEN BSub(acc, v) ELSE BAdd(acc, v), W)
\* the same for z = 1/q
RECURSIVE ArcInv(_, _, _, _, _, _)
ArcInv(q2, t, k, sg, cur, acc) ==
  LET u == BQuo(t, q2)
      v == BQuo(u, BI(k + 2))
  IN IF v = BZero THEN acc
     ELSE ArcInv(q2, u, k + 2, sg, sg * cur, IF sg * cur < 0 THEN BSub(acc, v) ELSE BAdd(acc, v))
ArcOfInv(q, sg, W) == LET t == BQuo(Fx1(W), BI(q)) IN ArcInv(BI(q * q), t, 1, sg, 1, t)

RECURSIVE SquareN(_, _, _)
SquareN(a, n, W) == IF n = 0 THEN a ELSE SquareN(FxMul(a, a, W), n - 1, W)
RECURSIVE RootN(_, _, _)
RootN(a, n, W) == IF n = 0 THEN a ELSE RootN(BSqrt(BShift(a, W)), n - 1, W)

\* how often to halve arguments: about the square root of W
Halvings(W) == CHOOSE k \in 1..200 : k * k > W /\ (k = 1 \/ (k - 1) * (k - 1) <= W)

FxExp(r, W) ==       \* 0 <= r < 3
  LET k == Halvings(W)
      V == W + k \div 3 + 4
      s == BQuo(FxAt(r, W, V), BPow(BI(2), k))
  IN FxAt(SquareN(ExpSum(s, Fx1(V), 1, Fx1(V), V), k, V), V, W)
FxLn(m, W) ==        \* 1/20 < m < 20; the absolute error is about 10^-W
  LET k == Halvings(W) \div 2 + 2
      V == W + k \div 3 + 5
      y == RootN(FxAt(m, W, V), k, V)
      z == FxDiv(BSub(y, Fx1(V)), BAdd(y, Fx1(V)), V)
      a == BAbs(z)
      s == BMul(ArcSum(FxMul(a, a, V), a, 1, 1, 1, a, V), BPow(BI(2), k + 1))
      n == FxAt(s, V, W)
  IN IF BSgn(z) < 0 THEN BNeg(n) ELSE n
RECURSIVE HalveArc(_, _, _)
HalveArc(t, n, W) ==  \* tan(a/2) from tan(a)
  IF n = 0 THEN t
  ELSE HalveArc(FxDiv(t, BAdd(Fx1(W), BSqrt(BAdd(BPow10(2*W), BMul(t, t)))), W), n - 1, W)
FxAtan(t, W) ==      \* 0 <= t <= 1
  LET k == Halvings(W) \div 2 + 2
      V == W + k \div 3 + 5
      h == HalveArc(FxAt(t, W, V), k, V)
  IN FxAt(BMul(ArcSum(FxMul(h, h, V), h, 1, -1, 1, h, V), BPow(BI(2), k)), V, W)
FxSin(r, W) == TrigSum(FxMul(r, r, W), r, 1, -1, r, W)                   \* 0 <= r <= 1
FxCos(r, W) == TrigSum(FxMul(r, r, W), Fx1(W), 0, -1, Fx1(W), W)

-----------------------------------------------------------------------------
(* Constants: at CDigits; Digits.tla holds the results, RealsCheck.tla compares. *)
PiDef(W)   == BMul(BI(4), BSub(BMul(BI(4), ArcOfInv(5, -1, W)), ArcOfInv(239, -1, W)))
Ln10Def(W) == BAdd(BAdd(BMul(BI(46), ArcOfInv(31, 1, W)), BMul(BI(34), ArcOfInv(49, 1, W))),
                   BMul(BI(20), ArcOfInv(161, 1, W)))
EDef(W)    == ExpSum(Fx1(W), Fx1(W), 1, Fx1(W), W)
PiAt(W)   == FxAt(PiC, CDigits, W)
Ln10At(W) == FxAt(Ln10C, CDigits, W)
EAt(W)    == FxAt(EC, CDigits, W)

-----------------------------------------------------------------------------
(* What is known of a true value: [s, c, e]: it is about c*10^e with sign s.     *)
(* x: 0 it is irrational, 1 it is exactly that, 2 it may be. free: its cohort is *)
(* not specified.                                                               *)
Approx(n, e)  == [s |-> SignBit(n), c |-> BAbs(n), e |-> e, x |-> 0, free |-> FALSE]
Maybe(n, e)   == [Approx(n, e) EXCEPT !.x = 2, !.free = TRUE]
Exact(s, c, e, free) == [s |-> s, c |-> c, e |-> e, x |-> 1, free |-> free]

\* What a function may do: outs are outcomes; T a true value or <<>>; any: not specified
Sure(o)     == [outs |-> {o}, T |-> <<>>, any |-> FALSE]
Value_(T)   == [outs |-> {}, T |-> T, any |-> FALSE]
AnyThing    == [outs |-> {}, T |-> <<>>, any |-> TRUE]

Stripped(c) == BDrop(c, BTrail(c))
\* the outcomes of rounding T
RoundedT(cx, T) ==
  IF T.x = 1 /\ T.c = BZero THEN {Finish(cx, T.s, T.c, T.e, FALSE, TRUE)} ELSE
  LET D == BDigits(T.c)
      d == BMul(BI(2), BPow10(Max2(0, D - cx.p - 2)))
  IN (IF T.x > 0 THEN {Finish(cx, T.s, IF T.free THEN Stripped(T.c) ELSE T.c,
                                SAdd(T.e, IF T.free THEN BTrail(T.c) ELSE 0), FALSE, TRUE)} ELSE {})
     \cup (IF T.x > 0 /\ T.free  \* zeros may have been dropped
           THEN {[Finish(cx, T.s, Stripped(T.c), SAdd(T.e, BTrail(T.c)), FALSE, TRUE) EXCEPT !.f = @ \cup {Rounded}]} ELSE {})
     \cup (IF T.x # 1 THEN {Finish(cx, T.s, BSub(T.c, d), T.e, TRUE, TRUE),
                            Finish(cx, T.s, BAdd(T.c, d), T.e, TRUE, TRUE)} ELSE {})
\* What also may become of T if functions needn't decide on which side of T a number is that differs from
\* it by less than 0.005 units of the p-th digit: for T = 0.99999... the result 1 is accepted in any mode.
NearT(cx, T) ==
  LET q == Max2(0, BDigits(T.c) - cx.p - 2)
      n == IF q = 0 THEN T.c ELSE BQuo(BAdd(T.c, BMul(BI(5), BPow10(q - 1))), BPow10(q))
      o == Finish(cx, T.s, n, SAdd(T.e, q), FALSE, TRUE)
  IN {[o EXCEPT !.f = @ \cup {Inexact, Rounded} \cup (IF Subnormal \in @ THEN {Underflow} ELSE {})]}
\* enough digits?
ThickT(cx, T) == T.x = 1 \/ BDigits(T.c) >= cx.p + 6

\* |w - T| <= n units in the last place
CloseT(cx, T, w, n) ==
  /\ w.k = 0 /\ (w.s = T.s \/ w.c = BZero)
  /\ LET a == SAdd(T.e, BDigits(T.c) - 1)
         u == Max2(a - cx.p + 1, cx.tiny)
         e == Min2(T.e, Min2(w.e, u))
     IN /\ w.e - e < 20000 /\ T.e - e < 20000 /\ u - e < 20000
        /\ BLe(BAbs(BSub(BShift(w.c, w.e - e), BShift(T.c, T.e - e))), BMul(BI(n), BShift(BOne, u - e)))

-----------------------------------------------------------------------------
(* Exponential, logarithms, powers *)

\* e^L for |L| >= 10^8; all: |L| >= 10^19, which is beyond all exponents
ExpFar(cx, neg, all) ==
  IF ~neg /\ (all \/ cx.hi < 10000000) THEN Sure(OverflowOut(cx, 0))
  ELSE IF neg /\ (all \/ cx.tiny > -10000000) THEN Sure(Finish(cx, 0, BOne, cx.tiny - 9, FALSE, TRUE))
  ELSE AnyThing
\* e^L where L is at W, its error is less than 10^-(p+12)
ExpFx(cx, L, W) ==
  IF BDigits(L) > W + 8 THEN ExpFar(cx, BSgn(L) < 0, BDigits(L) > W + 19)
  ELSE LET k == BFloor(L, Ln10At(W))
           n == FxExp(BSub(L, BMul(k, Ln10At(W))), W)
       IN Value_(Approx(n, BInt(k) - W))

ExpV(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsInf(x) THEN Sure(Out(IF x.s = 0 THEN InfV(0) ELSE ZeroV(0, 0), {}))
  ELSE IF IsZero(x) THEN Sure(Out(OneV, {}))
  ELSE IF cx.unl THEN Sure(TooPrecise)
  ELSE IF Adj(x) > 9 THEN ExpFar(cx, x.s = 1, Adj(x) > 18)
  ELSE ExpFx(cx, FxVal(x, cx.p + 25), cx.p + 25)

\* The natural logarithm of the finite x > 0 at W.  10^-W is its absolute error; the decimal exponent of
\* the logarithm is at least -LnLoss(x).
IsOne(x) == x.k = 0 /\ x.s = 0 /\ CmpMag(x, OneV) = 0
LnLoss(x) ==
  IF Adj(x) \notin {-1, 0} THEN 0
  ELSE LET d == BSub(x.c, BPow10(-x.e)) IN Max2(0, 1 - (BDigits(d) - 1 + x.e))
LnAt(x, W) ==
  LET near == Adj(x) \in {-1, 0}
      D == BDigits(x.c)
      m == IF near THEN FxVal(x, W) ELSE FxOf(x.c, -(D - 1), W)
      V == W + 12
  IN IF near THEN FxLn(m, W)
     ELSE BAdd(FxLn(m, W), FxAt(BMul(BI(Adj(x)), Ln10At(V)), V, W))

LogSpecial(x) == IF IsZero(x) THEN Out(InfV(1), {})
                 ELSE IF x.s = 1 THEN Invalid({InvalidOp})
                 ELSE Out(InfV(0), {})
LogV(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsZero(x) \/ x.s = 1 \/ IsInf(x) THEN Sure(LogSpecial(x))
  ELSE IF IsOne(x) THEN Sure(Finish(cx, 0, BZero, 0, FALSE, TRUE))
  ELSE IF cx.unl THEN Sure(TooPrecise)
  ELSE LET W == cx.p + 20 + LnLoss(x) IN Value_(Approx(LnAt(x, W), -W))
Log10V(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsZero(x) \/ x.s = 1 \/ IsInf(x) THEN Sure(LogSpecial(x))
  ELSE IF x.c = BPow10(BDigits(x.c) - 1)
       THEN Sure(Finish(cx, IF Adj(x) < 0 THEN 1 ELSE 0, BAbs(BI(Adj(x))), 0, FALSE, ~CtxGo(cx)))
  ELSE IF cx.unl THEN Sure(TooPrecise)
  ELSE LET W == cx.p + 20 + LnLoss(x) IN Value_(Approx(FxDiv(LnAt(x, W), Ln10At(W), W), -W))

\* x^n for |n| <= 5000
IntPow(cx, x, n, s) ==
  LET m == IF n < 0 THEN -n ELSE n
      c == BPow(x.c, m)
      q == BDigits(c) + cx.p + 20
      inv == BQuo(BPow10(q), c)
      ex == BRem(BPow10(q), c) = BZero
  IN IF n >= 0
     THEN IF cx.unl THEN Value_(Exact(s, c, x.e * m, FALSE))
          ELSE IF BDigits(Stripped(c)) <= cx.p THEN Value_(Exact(s, c, x.e * m, FALSE))
          ELSE Value_([Approx(BShift(c, 8), x.e * m - 8) EXCEPT !.s = s])
     ELSE IF cx.unl THEN AnyThing
     ELSE IF ex /\ BDigits(Stripped(inv)) <= cx.p THEN Value_(Exact(s, Stripped(inv), BTrail(inv) - q - x.e * m, TRUE))
     ELSE Value_([Approx(inv, -q - x.e * m) EXCEPT !.s = s])
\* |x|^y by way of the logarithm
LnPow(cx, x, y, s) ==
  LET a == [x EXCEPT !.s = 0]
      \* the decimal exponents of y and of the logarithm
      W == cx.p + 30 + Max2(0, Adj(y))
      L0 == LnAt(a, W)
      L == FxOf(BMul(Signed(y), L0), y.e, 0)
      one == CmpMag(x, OneV) = 0
  IN IF one THEN Value_([Maybe(BPow10(cx.p + 15), -(cx.p + 15)) EXCEPT !.s = s])
     ELSE IF Adj(y) > 40
          THEN AnyThing
     ELSE LET V == ExpFx(cx, L, W)
          IN IF V.T = <<>> THEN (IF s = 1 THEN AnyThing ELSE V)
             ELSE [V EXCEPT !.T = [V.T EXCEPT !.s = s, !.x = 2, !.free = TRUE]]
PowV(cx, x, y) ==
  LET odd == IsFin(y) /\ y.e <= 0 /\ IsIntV(y) /\ BOdd(Trunc(y))
      s == IF x.s = 1 /\ odd THEN 1 ELSE 0
      half == IsFin(y) /\ y.s = 0 /\ CmpMag(y, Fin(0, BI(5), -1)) = 0
      one == IF IsFin(x) THEN CmpMag(x, OneV) ELSE 1
  IN
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF HasNaN(x, y) THEN Sure(NaNOut(x, y))
  ELSE IF IsZero(x)
       THEN IF IsZero(y) THEN Sure(Invalid({InvalidOp}))
            ELSE IF y.s = 1 THEN Sure(Out(InfV(s), {})) ELSE Sure(Out(ZeroV(s, 0), {}))
  ELSE IF x.s = 1 /\ (IsInf(y) \/ ~IsIntV(y)) THEN Sure(Invalid({InvalidOp}))
  ELSE IF IsInf(x)
       THEN IF IsZero(y) THEN Sure(Out(OneV, {}))
            ELSE IF y.s = 0 THEN Sure(Out(InfV(s), {})) ELSE Sure(Out(ZeroV(s, 0), {}))
  ELSE IF IsZero(y) THEN Sure(Out(OneV, {}))
  ELSE IF IsInf(y)
       THEN IF one = 0 THEN Sure(Out(OneV, {}))
            ELSE IF (one > 0) = (y.s = 0) THEN Sure(Out(InfV(0), {})) ELSE Sure(Out(ZeroV(0, 0), {}))
  ELSE IF half THEN Sure(Sqrt(cx, x))
  ELSE LET n == IF IsIntV(y) /\ Adj(y) <= 3 THEN BInt(Trunc(y)) ELSE 99999
           m == IF n < 0 THEN -n ELSE n
           t == one # 0 /\ Stripped(x.c) = BOne /\ IsIntV(y)  \* a power of ten
       IN IF m <= 5000 /\ m * BDigits(x.c) <= 20000 /\ Adj(x) < 100000 /\ Adj(x) > -100000 THEN IntPow(cx, x, n, s)
          ELSE IF t THEN IF Adj(y) <= 6 /\ Adj(x) < 100 /\ Adj(x) > -100
                         THEN Value_(Exact(s, BOne, Adj(x) * BInt(Trunc(y)), TRUE)) ELSE AnyThing
          ELSE IF cx.unl THEN AnyThing
          ELSE LnPow(cx, x, y, s)

-----------------------------------------------------------------------------
(* Trigonometric functions *)

\* x so small that x is f(x) to all the digits that matter
TinyArg(cx, x) == 2 * Adj(x) < -(cx.p + 30)
Itself(cx, x) == [Approx(BShift(Signed(x), cx.p + 12), x.e - cx.p - 12) EXCEPT !.s = x.s]

\* |x| = q*pi/2 + r: <<q mod 4, r>> with -pi/4 <= r <= pi/4, at W
Quadrant(x, W) ==
  LET V == W + Max2(0, Adj(x)) + 5
      a == FxOf(x.c, x.e, V)
      h == BQuo(PiAt(V), BI(2))
      q == BQuo(BAdd(a, BQuo(h, BI(2))), h)
  IN <<BInt(BRem(q, BI(4))), FxAt(BSub(a, BMul(q, h)), V, W)>>
\* the same at a W such that r has at least n digits: <<q mod 4, r, W>>
RECURSIVE QuadrantTo(_, _, _)
QuadrantTo(x, n, W) ==
  LET Q == Quadrant(x, W)
  IN IF BDigits(Q[2]) >= n /\ Q[2] # BZero THEN <<Q[1], Q[2], W>>
     ELSE QuadrantTo(x, n, W + n - BDigits(Q[2]) + 2)
\* +-sine and cosine of |x|, relative errors below 10^-(p+10)
SinCos(cx, x) ==
  LET Q == QuadrantTo(x, cx.p + 18, cx.p + 20)
      r == BAbs(Q[2])
      sn == IF BSgn(Q[2]) < 0 THEN BNeg(FxSin(r, Q[3])) ELSE FxSin(r, Q[3])
      cs == FxCos(r, Q[3])
  IN CASE Q[1] = 0 -> <<sn, cs, Q[3]>>
       [] Q[1] = 1 -> <<cs, BNeg(sn), Q[3]>>
       [] Q[1] = 2 -> <<BNeg(sn), BNeg(cs), Q[3]>>
       [] Q[1] = 3 -> <<BNeg(cs), sn, Q[3]>>
Flip(n, s) == IF s = 1 THEN BNeg(n) ELSE n

TrigV(cx, op, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsInf(x) THEN Sure(Invalid({InvalidOp}))
  ELSE IF IsZero(x) THEN Sure(Out(IF op = "Cos" THEN OneV ELSE ZeroV(0, 0), {}))
  ELSE IF cx.unl THEN Sure(TooPrecise)
  ELSE IF Adj(x) > 60 THEN AnyThing
  ELSE IF TinyArg(cx, x)
       THEN Value_(IF op = "Cos" THEN Approx(BPow10(cx.p + 12), -cx.p - 12) ELSE Itself(cx, x))
  ELSE LET sc == SinCos(cx, x)
           T == CASE op = "Sin" -> Approx(Flip(sc[1], x.s), -sc[3])
                  [] op = "Cos" -> Approx(sc[2], -sc[3])
                  [] op = "Tan" -> LET n == cx.p + 15 + Max2(0, BDigits(sc[2]) - BDigits(sc[1]))
                                   IN Approx(BQuo(BShift(Flip(sc[1], x.s), n), sc[2]), -n)
       IN \* the library doesn't reduce arguments that are larger
          IF Adj(x) >= 19 THEN [Value_(T) EXCEPT !.outs = {Invalid({InvalidOp})}] ELSE Value_(T)

\* arctangent of t at W, of any t >= 0
ArcTan(t, W) ==
  IF BLe(t, Fx1(W)) THEN FxAtan(t, W)
  ELSE BSub(BQuo(PiAt(W), BI(2)), FxAtan(BQuo(BPow10(2*W), t), W))
PiOver(cx, num, den, s) ==
  LET W == cx.p + 20 IN [Approx(BQuo(BMul(BI(num), PiAt(W)), BI(den)), -W) EXCEPT !.s = s]
WithS(T, s) == [T EXCEPT !.s = s]

AtanV(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsInf(x) THEN IF cx.unl THEN AnyThing ELSE Value_(PiOver(cx, 1, 2, x.s))
  ELSE IF IsZero(x) THEN Sure(Out(ZeroV(x.s, 0), {}))
  ELSE IF cx.unl THEN Sure(TooPrecise)
  ELSE IF TinyArg(cx, x) THEN Value_(Itself(cx, x))
  ELSE IF Adj(x) > cx.p + 20 THEN Value_(PiOver(cx, 1, 2, x.s))
  ELSE LET W == cx.p + 20 + Max2(0, -Adj(x))
       IN Value_(WithS(Approx(ArcTan(FxOf(x.c, x.e, W), W), -W), x.s))
AsinV(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsInf(x) \/ CmpMag(x, OneV) > 0 THEN Sure(Invalid({InvalidOp}))
  ELSE IF IsZero(x) THEN Sure(Out(ZeroV(x.s, 0), {}))
  ELSE IF cx.unl THEN AnyThing
  ELSE IF CmpMag(x, OneV) = 0 THEN Value_(PiOver(cx, 1, 2, x.s))
  ELSE IF TinyArg(cx, x) THEN Value_(Itself(cx, x))
  ELSE \* 2 atan(x / (1 + sqrt(1 - x^2)))
       LET W == cx.p + 22 + Max2(0, -Adj(x))
           k == BPow10(-2 * x.e)
           q == BSqrt(FxOf(BSub(k, BMul(x.c, x.c)), 2 * x.e, 2 * W))
           t == FxDiv(FxOf(x.c, x.e, W), BAdd(Fx1(W), q), W)
       IN Value_(WithS(Approx(BMul(BI(2), FxAtan(t, W)), -W), x.s))
AcosV(cx, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF IsNaN(x) THEN Sure(NaNOut(x, x))
  ELSE IF IsInf(x) \/ CmpMag(x, OneV) > 0 THEN Sure(Invalid({InvalidOp}))
  ELSE IF CmpMag(x, OneV) = 0 /\ x.s = 0 THEN Sure(Out(ZeroV(0, 0), {}))
  ELSE IF cx.unl THEN AnyThing
  ELSE IF CmpMag(x, OneV) = 0 THEN Value_(PiOver(cx, 1, 1, 0))
  ELSE IF IsZero(x) \/ Adj(x) < -(cx.p + 30) THEN Value_(PiOver(cx, 1, 2, 0))
  ELSE \* 2 atan(sqrt((1 - x) / (1 + x)))
       LET k == BPow10(-x.e)
           a == BSub(k, Signed(x))
           b == BAdd(k, Signed(x))
           W == cx.p + 22 + Max2(0, BDigits(b) - BDigits(a))
       IN Value_(Approx(BMul(BI(2), ArcTan(BSqrt(BQuo(BShift(a, 2 * W), b)), W)), -W))
\* the angle of the point (x, y)
Atan2V(cx, y, x) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF HasNaN(y, x) THEN Sure(NaNOut(y, x))
  ELSE IF cx.unl THEN AnyThing
  ELSE IF IsZero(y) /\ x.s = 0 THEN Sure(Finish(cx, y.s, BZero, 0, FALSE, TRUE))
  ELSE IF IsZero(y) THEN Value_(PiOver(cx, 1, 1, y.s))
  ELSE IF IsZero(x) THEN Value_(PiOver(cx, 1, 2, y.s))
  ELSE IF IsInf(x) THEN IF IsInf(y) THEN Value_(PiOver(cx, IF x.s = 1 THEN 3 ELSE 1, 4, y.s))
                        ELSE IF x.s = 1 THEN Value_(PiOver(cx, 1, 1, y.s))
                        ELSE Sure(Finish(cx, y.s, BZero, 0, FALSE, TRUE))
  ELSE IF IsInf(y) THEN Value_(PiOver(cx, 1, 2, y.s))
  ELSE \* |y/x| = t, of about 10^a
       LET a == Adj(y) - Adj(x)
           N == cx.p + 22
           \* t at W, with N digits
           Quot(W) == LET s == y.e - x.e + W
                      IN IF s >= 0 THEN BQuo(BShift(y.c, s), x.c) ELSE BQuo(y.c, BShift(x.c, -s))
       IN IF a < -N THEN (IF x.s = 1 THEN Value_(PiOver(cx, 1, 1, y.s))
                          ELSE \* t itself; from -N on its cube is negligible
                               LET n == N + BDigits(x.c)
                               IN Value_(WithS(Approx(BQuo(BShift(y.c, n), x.c), y.e - x.e - n), y.s)))
          ELSE IF a > N THEN Value_(PiOver(cx, 1, 2, y.s))
          ELSE LET W == N + 2 + Max2(0, -a)
                   t == ArcTan(Quot(W), W)
               IN Value_(WithS(Approx(IF x.s = 1 THEN BSub(PiAt(W), t) ELSE t, -W), y.s))

HypotV(cx, x, y) ==
  IF ~cx.ok THEN Sure(BadCtx)
  ELSE IF HasNaN(x, y) THEN Sure(NaNOut(x, y))
  ELSE IF cx.unl THEN AnyThing
  ELSE IF IsInf(x) \/ IsInf(y) THEN Sure(Out(InfV(0), {}))
  ELSE IF IsZero(x) /\ IsZero(y) THEN Value_(Exact(0, BZero, Min2(x.e, y.e), TRUE))
  ELSE LET big == IF CmpMag(x, y) >= 0 THEN x ELSE y
           sml == IF CmpMag(x, y) >= 0 THEN y ELSE x
           W == cx.p + 20
       IN IF IsZero(sml) THEN Value_(Maybe(BShift(big.c, W), big.e - W))
          ELSE IF Adj(big) - Adj(sml) > cx.p + 20 THEN Value_(Approx(BShift(big.c, W), big.e - W))
          ELSE LET e == Min2(x.e, y.e)
                   S == BAdd(BPow(BShift(x.c, x.e - e), 2), BPow(BShift(y.c, y.e - e), 2))
                   r == BSqrt(BShift(S, 2 * W))
               IN Value_(IF BMul(r, r) = BShift(S, 2 * W) THEN Maybe(r, e - W) ELSE Approx(r, e - W))

-----------------------------------------------------------------------------
(* Constants *)
PiV(cx) == IF ~cx.ok THEN Sure(BadCtx) ELSE IF cx.unl THEN Sure(TooPrecise) ELSE Value_(PiOver(cx, 1, 1, 0))
EV(cx)  == IF ~cx.ok THEN Sure(BadCtx) ELSE IF cx.unl THEN AnyThing
           ELSE Value_(Approx(EAt(cx.p + 20), -(cx.p + 20)))

-----------------------------------------------------------------------------
(* Continued fractions and series: b holds sequences of small integers that are not negative. *)

\* a with the signs that the bits of neg tell
RECURSIVE WithSigns(_, _)
WithSigns(a, neg) ==
  IF a = <<>> THEN <<>> ELSE <<IF neg % 2 = 1 THEN -a[1] ELSE a[1]>> \o WithSigns(Tail(a), neg \div 2)
\* b[i] + a[i+1]/(b[i+1] + a[i+2]/(...)) at W
RECURSIVE Fraction(_, _, _, _, _)
Fraction(a, b, i, tail, W) ==
  IF i = Len(b) THEN tail
  ELSE BAdd(BShift(BI(b[i]), W), BQuo(BShift(BI(a[i + 1]), 2 * W), Fraction(a, b, i + 1, tail, W)))
FractionT(a, b, loop, p) ==
  LET W == p + 30
      n == Len(b)
      \* the last term, repeated for ever: t = b + a/t
      tail == IF loop THEN BQuo(BAdd(BShift(BI(b[n]), W),
                                     BSqrt(BShift(BI(b[n] * b[n] + 4 * a[n]), 2 * W))), BI(2))
              ELSE BShift(BI(b[n]), W)
  IN Approx(Fraction(a, b, 1, tail, W), -W)

\* c[1] + c[2]*n, or c[3] if n is zero and there is a c[3]
Lin(c, n) == BI(IF n = 0 /\ Len(c) > 2 THEN c[3] ELSE c[1] + c[2] * n)
\* sum of A(n)/B(n) * P(0..n)/Q(0..n) at W for n from i to j-1 (or while it matters); t is P/Q so far
RECURSIVE Sum(_, _, _, _, _, _, _)
Sum(f, i, j, t, acc, inf, W) ==
  LET u == BQuo(BMul(t, Lin(f[2], i)), Lin(f[4], i))
      v == BQuo(BMul(u, Lin(f[1], i)), Lin(f[3], i))
  IN IF i = j \/ (inf /\ i > 20 /\ BDigits(v) < 3) THEN acc
     ELSE Sum(f, i + 1, j, u, BAdd(acc, v), inf, W)
SumT(f, i, j, inf, p) == LET W == p + 60 IN Approx(Sum(f, i, j, Fx1(W), BZero, inf, W), -W)

SeriesOps == {"Wallis", "Lentz", "BinarySplit", "BinarySplitDynamic"}
SeriesAspects(ev, cx, N) ==
  LET w == N[ev.z]
      T == CASE ev.o \in {"Wallis", "Lentz"} -> FractionT(WithSigns(ev.b[1], ev.a[3]), ev.b[2], ev.a[1] = 1, cx.p)
             [] ev.o = "BinarySplit" -> SumT(ev.b, ev.a[1], ev.a[2], FALSE, cx.p)
             [] OTHER -> SumT(ev.b, 0, 10000, TRUE, cx.p)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE \* Lentz works with the precision and the rounding mode of the result: the error is that of all steps
          FlagIf(~CloseT(cx, T, w, IF ev.o = "Lentz" /\ cx.r \notin {HalfEven, HalfUp, HalfDown} THEN 3000 ELSE 100), "real")
          \cup FlagIf(ev.o # "BinarySplitDynamic" /\ ev.r # <<1>>, "ret")
=============================================================================
