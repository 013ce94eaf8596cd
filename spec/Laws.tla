--------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The properties, checked on the specification itself.                    *)
(*                                                                         *)
(* GDA.tla and Text.tla define what an operation has to give by a          *)
(* computation.  The laws of this module say it declaratively, without     *)
(* that computation: which number of the finite set of all those that the  *)
(* context can represent the result has to be, which exponent of those it  *)
(* could have, which conditions are raised.  TLC checks them for all       *)
(* operands of a small domain.                                             *)
(*                                                                         *)
(* The same exploration is a generator: for every state, the history that  *)
(* executes the operations on its operands is written to the file HIST;    *)
(* the driver executes them, and Trace.tla judges what the library did.    *)
(*                                                                         *)
(* A state is a context and one or two operands; the invariant is the law. *)
(***************************************************************************)
EXTENDS GDA, Text, TLC, IOUtils, Json, CSV, SequencesExt, FiniteSetsExt

LAW  == IOEnv.LAW
Deep == IOEnv.DEEP = "1"
Seed == atoi(IOEnv.SEED)
HIST == IOEnv.HIST           \* "": no histories
Every == atoi(IOEnv.EVERY)   \* one history of that many is written
\* the exponent range of all contexts
Lo == -2
Hi == 2
MaxP == IF Deep THEN 3 ELSE 2

-----------------------------------------------------------------------------
(* The numbers that are representable in p digits, in units of 10^tiny, in order *)
Ten(n) == 10^n
Mod(a, b) == a % b
RepSet(p) == {c * Ten(k) : c \in 0..(Ten(p) - 1), k \in 0..(Hi - Lo)}
RepSeq == TLCEval([p \in 1..MaxP |-> SetToSortSeq(RepSet(p), <)])
\* what follows the largest one
Beyond(p) == Ten(p + Hi - Lo)


(* The number that cx rounds |E| to, where E has the sign s, and At(h) is  *)
(* the sign of |E| - h/2 units.                                            *)
Choice(cx, s, At(_)) ==
  LET S == RepSeq[cx.p]
      n == Len(S)
      f[a \in 1..n, b \in 1..n] ==         \* the last i in a..b with S[i] <= |E|; S[a] is
        IF a = b THEN a
        ELSE LET m == (a + b + 1) \div 2 IN IF At(2 * S[m]) >= 0 THEN f[m, b] ELSE f[a, m - 1]
      i  == f[1, n]
      lo == S[i]
      hi == IF i = n THEN Beyond(cx.p) ELSE S[i+1]
      m  == At(lo + hi)
      up == CASE cx.r = Down -> FALSE
              [] cx.r = Up -> TRUE
              [] cx.r = Floor_ -> s = 1
              [] cx.r = Ceiling -> s = 0
              [] OTHER -> m > 0 \/ (m = 0 /\ (cx.r = HalfUp \/ (cx.r = HalfEven /\ Mod(lo \div (hi - lo), 2) = 1)))
      exact == At(2 * lo) = 0
  IN [exact |-> exact, n |-> IF exact THEN lo ELSE IF up THEN hi ELSE lo]

\* v, finite, is n units
Is(cx, v, n) == LET e == Min2(v.e, cx.tiny) IN BShift(v.c, v.e - e) = BShift(BI(n), cx.tiny - e)

\* The outcome of rounding E once, whose exponent ought to be pref.
Rounded1(cx, s, At(_), pref, o) ==
  LET ch   == Choice(cx, s, At)
      B    == Beyond(cx.p)
      over == At(2 * B) >= 0 \/ ch.n = B
      sub  == At(0) > 0 /\ At(2 * Ten(cx.p - 1)) < 0
      \* the exponents that the number can have
      Ks   == {k \in cx.tiny..Hi : Mod(ch.n, Ten(k - cx.tiny)) = 0 /\ (ch.n \div Ten(k - cx.tiny)) < Ten(cx.p)}
      near == CHOOSE k \in Ks : \A j \in Ks : (k - pref) * (k - pref) < (j - pref) * (j - pref) \/ j = k
  IN /\ ~o.inv
     /\ o.v.s = s
     /\ IF over THEN /\ {Overflow, Inexact, Rounded} \subseteq o.f
                     /\ {Underflow, Subnormal, Clamped} \cap o.f = {}
                     /\ IF ch.n = B THEN o.v = InfV(s) ELSE IsFin(o.v) /\ Is(cx, o.v, ch.n)
        ELSE /\ IsFin(o.v) /\ Is(cx, o.v, ch.n)
             /\ BDigits(o.v.c) <= cx.p
             /\ Overflow \notin o.f
             /\ (Inexact \in o.f) = ~ch.exact
             /\ (Subnormal \in o.f) = sub
             /\ (Underflow \in o.f) = (sub /\ ~ch.exact)
             /\ IF ch.exact THEN o.v.e = near
                ELSE BDigits(o.v.c) = cx.p \/ o.v.e = cx.tiny
             /\ (Rounded \in o.f) = (~ch.exact \/ (ch.n # 0 /\ o.v.e > pref))
             /\ (Clamped \in o.f) = (ch.n = 0 /\ (~ch.exact \/ o.v.e # pref))
             /\ o.f \subseteq {Inexact, Subnormal, Underflow, Rounded, Clamped}

\* |E| = C*10^e, as an At
AtDec(cx, C, e, h) ==
  LET m == Min2(e, cx.tiny) IN BCmp(BMul(BI(2), BShift(C, e - m)), BShift(BI(h), cx.tiny - m))
\* |E| = |x/y|
AtQuo(cx, x, y, h) ==
  LET m == Min2(x.e, y.e + cx.tiny)
  IN BCmp(BMul(BI(2), BShift(x.c, x.e - m)), BMul(BI(h), BShift(y.c, y.e + cx.tiny - m)))
\* |E| = sqrt(x)
AtRoot(cx, x, h) ==
  LET m == Min2(x.e, 2 * cx.tiny)
  IN BCmp(BMul(BI(4), BShift(x.c, x.e - m)), BShift(BMul(BI(h), BI(h)), 2 * cx.tiny - m))
ExactRounded(cx, s, C, e, pref, o) == LET At(h) == AtDec(cx, C, e, h) IN Rounded1(cx, s, At, pref, o)

\* x + y as <<C, e>>, C signed
Sum(x, y) == LET e == Min2(x.e, y.e) IN <<BAdd(BShift(Signed(x), x.e - e), BShift(Signed(y), y.e - e)), e>>
SumSign(cx, x, y) ==
  LET S == Sum(x, y)[1] IN IF S # BZero THEN SignBit(S) ELSE IF x.s = y.s THEN x.s ELSE IF cx.r = Floor_ THEN 1 ELSE 0
AddLaw(cx, x, y, o) == ExactRounded(cx, SumSign(cx, x, y), BAbs(Sum(x, y)[1]), Min2(x.e, y.e), Min2(x.e, y.e), o)
MulLaw(cx, x, y, o) == ExactRounded(cx, Xor(x.s, y.s), BMul(x.c, y.c), x.e + y.e, x.e + y.e, o)
QuoLaw(cx, x, y, o) == LET At(h) == AtQuo(cx, x, y, h) IN Rounded1(cx, Xor(x.s, y.s), At, x.e - y.e, o)
RootLaw(cx, x, o) ==
  LET At(h) == AtRoot(cx, x, h)
  IN Rounded1([cx EXCEPT !.r = HalfEven], x.s, At, IF Mod(x.e, 2) = 0 THEN x.e \div 2 ELSE (x.e - 1) \div 2, o)

-----------------------------------------------------------------------------
(* The laws of binary operations *)

Addends == {Fin(0, BI(5), -3), Fin(1, BOne, 0), Fin(0, BI(95), 1), ZeroV(1, -4)}
LawAdd(cx, x, y) ==
  IsFin(x) /\ IsFin(y) =>
    /\ AddLaw(cx, x, y, Add(cx, x, y))
    /\ AddLaw(cx, x, CopyNeg(y), Sub(cx, x, y))
    /\ MulLaw(cx, x, y, Mul(cx, x, y))
    /\ Add(cx, x, y) = Add(cx, y, x) /\ Mul(cx, x, y) = Mul(cx, y, x)
    /\ FMA(cx, x, OneV, y) = Add(cx, x, y)
    /\ \A u \in Addends : AddLaw(cx, MulExact(x, y), u, FMA(cx, x, y, u))
LawQuo(cx, x, y) == IsFin(x) /\ NonZero(y) => QuoLaw(cx, x, y, Quo(cx, x, y))

\* integers: x = q*y + r with |r| < |y|
LawInt(cx, x, y) ==
  IsFin(x) /\ NonZero(y) =>
    LET q == QuoInt(cx, x, y) r == Rem(cx, x, y) qr == QuoRem(cx, x, y)
        e == Min2(x.e, y.e)
        X == BShift(x.c, x.e - e) Y == BShift(y.c, y.e - e)
        long == BLe(BMul(BPow10(cx.p), Y), X)          \* |x/y| >= 10^p
    IN IF long THEN /\ \A o \in {q, r, qr[1], qr[2]} : IsNaN(o.v) /\ o.f = {DivImpossible} /\ o.inv
       ELSE LET n == CHOOSE i \in 0..(Ten(cx.p) - 1) : BLe(BMul(BI(i), Y), X) /\ BLt(X, BMul(BI(i + 1), Y))
                R == BSub(X, BMul(BI(n), Y))
            IN /\ ExactRounded(cx, Xor(x.s, y.s), BI(n), 0, 0, q)
               /\ ExactRounded(cx, x.s, R, e, e, r)
               /\ qr = <<q, r>>

\* what the order of numbers is
Less(x, y) ==     \* x < y, not NaN
  IF IsInf(x) \/ IsInf(y) THEN (IF x.k = y.k THEN x.s = 1 /\ y.s = 0 ELSE IF IsInf(x) THEN x.s = 1 ELSE y.s = 0)
  ELSE BSgn(Sum(x, CopyNeg(y))[1]) < 0
Others == {Fin(0, BI(50), -3), Fin(0, BI(5), -2), Fin(1, BOne, 0), ZeroV(1, 0), ZeroV(0, 3), InfV(1), NaNV(3, 0, BZero), NaNV(2, 1, BOne)}
LawCmp(cx, x, y) ==
  /\ IF HasNaN(x, y) THEN Cmp(x, y) = 0
     ELSE /\ (Cmp(x, y) < 0) = Less(x, y) /\ (Cmp(x, y) > 0) = Less(y, x) /\ Cmp(x, y) \in {-1, 0, 1}
          /\ CmpAbsV(x, y) = Cmp(CopyAbs(x), CopyAbs(y))
          /\ (Cmp(x, y) # 0 => CmpTotal(x, y) = Cmp(x, y))
  /\ CmpTotal(x, y) = -CmpTotal(y, x)
  /\ (CmpTotal(x, y) = 0) = (x = y)
  /\ CmpTotal(CopyNeg(x), CopyNeg(y)) = CmpTotal(y, x)
  /\ \A z \in Others : /\ (CmpTotal(x, y) <= 0 /\ CmpTotal(y, z) <= 0 => CmpTotal(x, z) <= 0)
                       /\ (CmpTotal(z, x) <= 0 /\ CmpTotal(x, y) <= 0 => CmpTotal(z, y) <= 0)

\* finite results are within the range
InRange(cx, v) == IsFin(v) => v.e >= cx.tiny /\ (IF v.c = BZero THEN v.e <= cx.hi ELSE Adj(v) <= cx.hi)
AllBin(cx, x, y) == <<Add(cx, x, y), Sub(cx, x, y), Mul(cx, x, y), Quo(cx, x, y), QuoInt(cx, x, y), Rem(cx, x, y),
                      QuoRem(cx, x, y)[1], QuoRem(cx, x, y)[2], FMA(cx, x, y, x), FMA(cx, y, y, x)>>
AllUn(cx, x) == <<Sqrt(cx, x), Abs(cx, x), Neg(cx, x), Set(cx, x), Round(cx, x), NextPlus(cx, x), NextMinus(cx, x),
                  Quantize(cx, x, 1), Quantize(cx, x, 0), Quantize(cx, x, -1)>>
LawRange(cx, x, y) == \A i \in 1..10 : InRange(cx, AllBin(cx, x, y)[i].v)
LawRange1(cx, x) == /\ \A i \in 1..10 : InRange(cx, AllUn(cx, x)[i].v)
                    /\ LET r == Reduce(cx, x).v IN NonZero(r) => Adj(r) <= cx.hi /\ r.e >= cx.tiny

\* conditions: Overflow and Underflow are accompanied by what they imply, infinities are due to infinities,
\* overflow, or division by zero
LawConds(cx, x, y) ==
  \A i \in 1..10 :
    LET o == AllBin(cx, x, y)[i] IN
    /\ (Overflow \in o.f => {Inexact, Rounded} \subseteq o.f)
    /\ (Underflow \in o.f => {Inexact, Rounded, Subnormal} \subseteq o.f)
    /\ (Inexact \in o.f => Rounded \in o.f)
    /\ (IsInf(o.v) => IsInf(x) \/ IsInf(y) \/ o.f \cap {Overflow, DivByZero} # {})
    /\ (IsNaN(o.v) => HasNaN(x, y) \/ o.f \cap {InvalidOp, DivImpossible, DivUndefined} # {} \/ i \in {7, 8})
    /\ (o.inv => IsNaN(o.v))

\* NaNs, infinities: arithmetic of the limits
LawSpecial(cx, x, y) ==
  LET sig == IsSNaN(x) \/ IsSNaN(y)
      O == [i \in {1, 2, 3, 4, 5, 6} |-> AllBin(cx, x, y)[i]]
  IN IF HasNaN(x, y)
     THEN \A i \in 1..6 : /\ O[i].v.k = 2 /\ O[i].inv
                          /\ O[i].f = (IF sig THEN {InvalidOp} ELSE {})
                          /\ O[i].v.s = (IF sig THEN (IF IsSNaN(x) THEN x.s ELSE y.s) ELSE IF IsNaN(x) THEN x.s ELSE y.s)
     ELSE /\ (IsInf(x) \/ IsInf(y)) =>
               \* undefined exactly if the limit depends on how it is taken
               /\ IsNaN(O[1].v) = (IsInf(x) /\ IsInf(y) /\ x.s # y.s)
               /\ IsNaN(O[2].v) = (IsInf(x) /\ IsInf(y) /\ x.s = y.s)
               /\ IsNaN(O[3].v) = (IsZero(x) \/ IsZero(y))
               /\ IsNaN(O[4].v) = (IsInf(x) /\ IsInf(y))
               /\ IsNaN(O[6].v) = IsInf(x)
               /\ \A i \in {1, 2, 3} : ~IsNaN(O[i].v) => IsInf(O[i].v)
               /\ (~IsNaN(O[1].v) => O[1].v.s = (IF IsInf(x) THEN x.s ELSE y.s))
               /\ (~IsNaN(O[2].v) => O[2].v.s = (IF IsInf(x) THEN x.s ELSE 1 - y.s))
               /\ (~IsNaN(O[3].v) => O[3].v.s = Xor(x.s, y.s))
               /\ (~IsNaN(O[4].v) => O[4].v.s = Xor(x.s, y.s) /\ O[4].v.k = (IF IsInf(x) THEN 1 ELSE 0))
          /\ (IsZero(y) /\ IsFin(x)) => /\ O[4].f = (IF IsZero(x) THEN {InvalidOp, DivUndefined} ELSE {DivByZero})
                                        /\ O[4].v.k = (IF IsZero(x) THEN 2 ELSE 1)
                                        /\ IsNaN(O[6].v)
          /\ \A i \in 1..6 : O[i].inv = IsNaN(O[i].v)

\* Go mode: +, -, * and FMA are exact within the range, and only invalid operations panic
LawGo(cx, x, y) ==
  /\ IsFin(x) /\ IsFin(y) =>
       LET A == Sum(x, y) a == Add(cx, x, y).v m == Mul(cx, x, y).v
           fits(C, e) == C = BZero \/ (e >= cx.tiny /\ e + BDigits(C) - 1 <= cx.hi)
       IN /\ (fits(A[1], A[2]) => IsFin(a) /\ Sum(a, Fin(1 - SignBit(A[1]), BAbs(A[1]), A[2]))[1] = BZero)
          /\ (fits(BMul(x.c, y.c), x.e + y.e) => IsFin(m) /\ Sum(m, CopyNeg(MulExact(x, y)))[1] = BZero)
  /\ \A i \in 1..10 : LET o == AllBin(cx, x, y)[i]
                          g == AllBin([cx EXCEPT !.m = 0], x, y)[i]
                      IN o.inv = g.inv

-----------------------------------------------------------------------------
(* The laws of unary operations *)
LawRoot(cx, x) == IsFin(x) /\ (x.s = 0 \/ IsZero(x)) => RootLaw(cx, x, Sqrt(cx, x))

\* the multiple of 10^n that mode r rounds |x| to, as a number of 10^n
Grid(r, x, n) ==
  LET m == Min2(x.e, n)
      X == BShift(x.c, x.e - m)  U == BPow10(n - m)
      lo == BQuo(X, U)
      h == BCmp(BMul(BI(2), BSub(X, BMul(lo, U))), U)
      up == CASE r = Down -> FALSE [] r = Up -> TRUE [] r = Floor_ -> x.s = 1 [] r = Ceiling -> x.s = 0
              [] OTHER -> h > 0 \/ (h = 0 /\ (r = HalfUp \/ (r = HalfEven /\ BOdd(lo))))
  IN IF BMul(lo, U) = X \/ ~up THEN lo ELSE BAdd(lo, BOne)
LawQuantize(cx, x) ==
  IsFin(x) =>
    /\ \A n \in (cx.tiny-1)..(Hi+1) :
         LET o == Quantize(cx, x, -n) G == Grid(cx.r, x, n)
             can == n \in cx.tiny..Hi /\ BDigits(G) <= cx.p /\ n + BDigits(G) - 1 <= Hi
         IN IF can THEN o.v = Fin(x.s, G, n) /\ ~o.inv /\ (Inexact \in o.f) = (Cmp(o.v, x) # 0)
                        /\ Quantize(cx, o.v, -n).v = o.v
            ELSE IF x.c = BZero /\ n \in cx.tiny..Hi THEN o.v = ZeroV(x.s, n)
            ELSE IsNaN(o.v) /\ o.f = {InvalidOp} /\ o.inv
    /\ \A t \in {<<RoundToInt(cx, x), cx.r>>, <<Floor(cx, x), Floor_>>, <<Ceil(cx, x), Ceiling>>} :
         /\ t[1].v = (IF x.e >= 0 THEN x ELSE Fin(x.s, Grid(t[2], x, 0), 0))
         /\ (Inexact \in t[1].f) = (Cmp(t[1].v, x) # 0)
    /\ ~Less(x, Floor(cx, x).v) /\ ~Less(Ceil(cx, x).v, x)
    /\ \A o \in {Round(cx, x), Set(cx, x)} : ExactRounded(cx, x.s, x.c, x.e, x.e, o)

\* the neighbours of x among the representable numbers
LawNext(cx, x) ==
  IsFin(x) =>
    LET S == RepSeq[cx.p]
        n == Len(S)
        At(h) == AtDec(cx, x.c, x.e, h)
        f[a \in 1..n, b \in 1..n] ==
          IF a = b THEN a
          ELSE LET m == (a + b + 1) \div 2 IN IF At(2 * S[m]) >= 0 THEN f[m, b] ELSE f[a, m - 1]
        i     == f[1, n]          \* S[i] <= |x|, and S[i+1] is larger
        below == IF At(2 * S[i]) = 0 THEN S[i-1] ELSE S[i]
        out(o, s) ==              \* away from zero
          IF i = n THEN o.v = InfV(s) ELSE o.v.s = s /\ IsFin(o.v) /\ Is(cx, o.v, S[i+1])
        in(o) == o.v.s = x.s /\ IsFin(o.v) /\ Is(cx, o.v, below)
        a == NextPlus(cx, x) b == NextMinus(cx, x)
    IN /\ a.f = {} /\ b.f = {} /\ ~a.inv /\ ~b.inv
       /\ IF x.c = BZero \/ x.s = 0 THEN out(a, 0) ELSE in(a)
       /\ IF x.c = BZero \/ x.s = 1 THEN out(b, 1) ELSE in(b)
       /\ InRange(cx, a.v) /\ InRange(cx, b.v)

LawMinor(cx, x) ==
  /\ IsFin(x) => /\ ExactRounded(cx, 0, x.c, x.e, x.e, Abs(cx, x))
                 /\ LET r == Reduce(cx, x) p == Round(cx, x)
                    IN /\ r.f = p.f /\ Cmp(r.v, p.v) = 0
                       /\ (NonZero(r.v) => BTrail(r.v.c) = 0) /\ (IsZero(r.v) => r.v.e = 0)
                 /\ (NonZero(x) \/ cx.r # Floor_ => Neg(cx, x) = Sub(cx, ZeroV(0, x.e), x))
                 /\ (IsIntV(x) = (Cmp(ToInt(Down, x).v, x) = 0))
                 /\ Cmp(Fin(SignBit(Trunc(x)), BAbs(Trunc(x)), 0), ToInt(Down, x).v) = 0
  /\ CopyNeg(CopyNeg(x)) = x /\ CopyAbs(CopyNeg(x)) = CopyAbs(x)

\* texts
LawText(cx, x) == LET p == Parse(SciString(x, 0)) IN p.ok /\ p.o = Out(x, {})
\* a string that isn't refused denotes a decimal, whose text denotes it, too
LawParse(s) == LET p == Parse(s) IN p.ok /\ p.o.f = {} => LET q == Parse(SciString(p.o.v, 0)) IN q.ok /\ q.o.v = p.o.v
\* verb e with n digits prints the number rounded to n significant digits, f to n fractional digits
LawFormat(cx, x) ==
  IsFin(x) =>
    \A n \in 1..3 :
      LET e == Parse(VerbText(x, 0, cx.r, 101, 0, n))
          f == Parse(VerbText(x, 0, cx.r, 102, 0, n))
      IN /\ f.ok /\ f.o.v = Fin(x.s, Grid(cx.r, x, -n), -n)
         /\ e.ok /\ BDigits(e.o.v.c) <= n
         /\ (x.c # BZero => LET w == BDigits(x.c) + x.e - n          \* the exponent of the last of n digits
                                g == Grid(cx.r, x, w)
                            IN Cmp(e.o.v, Fin(x.s, g, w)) = 0)

\* binary numbers: the nearest one, ties to even
LawBin(cx, x) ==
  NonZero(x) =>
    \A p \in 1..4 :
      LET b == RoundBin(x.c, x.e, p, -6)
          num == IF x.e > 0 THEN BShift(x.c, x.e) ELSE x.c
          den == IF x.e < 0 THEN BPow10(-x.e) ELSE BOne
          \* m*2^k compared with |x|
          at(m, k) == IF k >= 0 THEN BCmp(BMul(BMul(m, BPow(BI(2), k)), den), num)
                      ELSE BCmp(BMul(m, den), BMul(num, BPow(BI(2), -k)))
          m == b[1] k == b[2]
          mid(i) == at(BAdd(BMul(BI(2), m), BI(i)), k - 1)
      IN /\ k >= -6 /\ (BBits(m) = p \/ (k = -6 /\ BBits(m) < p) \/ m = BPow(BI(2), p))
         /\ mid(-1) <= 0 /\ mid(1) >= 0
         /\ ((mid(-1) = 0 \/ mid(1) = 0) => ~BOdd(m))

-----------------------------------------------------------------------------
(* Domains *)
Coefs  == IF Deep THEN {0, 1, 2, 5, 9, 10, 15, 25, 50, 95, 99, 100, 999} ELSE {0, 1, 5, 10, 15, 95, 999}
Exps   == IF Deep THEN -4..3 ELSE {-4, -3, -1, 0, 2, 3}
Specials == {InfV(s) : s \in {0, 1}} \cup {NaNV(k, s, l) : k \in {2, 3}, s \in {0, 1}, l \in (IF LAW = "cmp" THEN {BZero, BI(7), BI(10)} ELSE {BI(7)})}
Vals   == {Fin(s, BI(c), e) : s \in {0, 1}, c \in Coefs, e \in Exps} \cup Specials
UnCoefs == 0..(IF Deep THEN 1100 ELSE 130)
UnVals0 == {ZeroV(s, e) : s \in {0, 1}, e \in -5..4}
Letters == IF Deep THEN {48, 57, 46, 101, 45, 43, 110, 65, 115, 73, 70} ELSE {48, 55, 46, 69, 45, 43, 110, 65, 73}
Strings == UNION {[1..n -> Letters] : n \in 0..(IF Deep THEN 4 ELSE 3)}

Binary == LAW \in {"add", "quo", "int", "cmp", "range", "conds", "special", "go", "alias"}
Mode   == IF LAW = "go" THEN 1 ELSE 0
Ctxs   == IF LAW \in {"cmp", "text", "parse", "bin"} THEN {<<MaxP, HalfEven, 0, Lo, Hi>>}
          ELSE IF LAW = "root" THEN {<<p, r, 0, Lo, Hi>> : p \in 1..MaxP, r \in {Mod(Seed, 7), Up}}
          ELSE IF LAW = "special" THEN {<<1, r, m, Lo, Hi>> : r \in {Floor_, HalfEven}, m \in {0, 1}}
          ELSE IF Deep THEN {<<p, r, Mode, Lo, Hi>> : p \in 1..MaxP, r \in 0..6}
          ELSE {<<1 + Mod(Seed + r, 2), r, Mode, Lo, Hi>> : r \in 0..6}
CtxOf5(c) == Ctx(c[1], c[2], c[3], c[4], c[5])

VARIABLES ph, c, x, y
vars == <<ph, c, x, y>>

Nil == OneV
Init == /\ c \in Ctxs /\ y = Nil
        /\ IF LAW = "parse" THEN x \in {<<>>} \cup {<<l>> : l \in Letters} /\ ph = 0
           ELSE IF Binary THEN x \in Vals /\ ph = 0
           ELSE x \in UnVals0 \cup Specials /\ ph = (IF x \in Specials THEN 1 ELSE 0)
Next == /\ ph = 0 /\ ph' = 1 /\ c' = c
        /\ IF LAW = "parse" THEN x' \in (IF x = <<>> THEN {x} ELSE {x \o s : s \in Strings}) /\ y' = y
           ELSE IF Binary THEN y' \in Vals /\ x' = x
           ELSE x' \in {[x EXCEPT !.c = BI(i)] : i \in UnCoefs} /\ y' = y
Spec == Init /\ [][Next]_vars

Law ==
  ph = 1 =>
  LET cx == CtxOf5(c)
  IN CASE LAW = "add" -> LawAdd(cx, x, y)
       [] LAW = "quo" -> LawQuo(cx, x, y)
       [] LAW = "int" -> LawInt(cx, x, y)
       [] LAW = "cmp" -> LawCmp(cx, x, y)
       [] LAW = "range" -> LawRange(cx, x, y) /\ (y = OneV => LawRange1(cx, x))
       [] LAW = "conds" -> LawConds(cx, x, y)
       [] LAW = "special" -> LawSpecial(cx, x, y)
       [] LAW = "go" -> LawGo(cx, x, y)
       [] LAW = "root" -> LawRoot(cx, x)
       [] LAW = "quantize" -> LawQuantize(cx, x)
       [] LAW = "next" -> LawNext(cx, x)
       [] LAW = "minor" -> LawMinor(cx, x)
       [] LAW = "text" -> LawText(cx, x)
       [] LAW = "parse" -> LawParse(x)
       [] LAW = "format" -> LawFormat(cx, x)
       [] LAW = "bin" -> LawBin(cx, x)
       [] LAW = "alias" -> TRUE      \* the outcome of an operation is, by definition, a function of its operands

-----------------------------------------------------------------------------
(* Histories *)
Ev(o, v, z, a1, b1, u, cx, a, b) ==
  [o |-> o, v |-> v, z |-> z, x |-> a1, y |-> b1, u |-> u, cx |-> cx, a |-> a, b |-> b]
NoCx == <<>>
LoadEv(z, v, cx) == Ev("Load", "", z, 0, 0, 0, cx, <<IF IsFin(v) THEN Mod(v.e + z + Seed, 4) ELSE 0, v.k, v.s, v.e, 0, 0>>, <<v.c, v.l>>)
Fresh(z, cx) == Ev("Load", "", z, 0, 0, 0, cx, <<4, 0, 0, 0, 0, 0>>, <<BZero, BZero>>)
Bin(o, cx) == <<Ev(o, "m", 3, 1, 2, 0, NoCx, <<>>, <<>>), Ev(o, "c", 4, 1, 2, 0, cx, <<>>, <<>>)>>
Un(o, cx)  == <<Ev(o, "c", 4, 1, 0, 0, cx, <<>>, <<>>)>>
In(o, cx, a) == <<Ev("Copy", "m", 4, 1, 0, 0, NoCx, <<>>, <<>>), Ev(o, "c", 4, 0, 0, 0, cx, a, <<>>)>>
Fmt(verb, flags, w, p) == Ev("Format", "m", 0, 1, 0, 0, NoCx, <<verb, flags, w, p>>, <<>>)
RECURSIVE Flat(_)
Flat(S) == IF S = <<>> THEN <<>> ELSE Head(S) \o Flat(Tail(S))
\* The same operation, with a new receiver, with receivers that are operands, with a dirty receiver, through
\* the context and through the receiver's
Hash == (IF LAW = "parse" THEN FoldLeft(LAMBDA a, b : Mod(31 * a + b, 10007), 7, x)
         ELSE 31 * BInt(x.c) + 7 * (x.e + 10) + 3 * x.k + x.s + 17 * BInt(y.c) + 5 * (y.e + 10) + 11 * y.k + 2 * y.s)
        + 13 * c[1] + 19 * c[2] + 23 * c[3] + Mod(Seed, 10000)
Same(i, j) == Ev("Same", "q", 0, i, j, 0, NoCx, <<>>, <<>>)
Dirty(z, cx) == Ev("Load", "", z, 0, 0, 0, cx, <<3, 0, 1, 7, 0, 0>>, <<BMul(BPow10(30), BI(12345)), BZero>>)
AliasOps(k) ==
  LET bin == <<"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem">>
      un  == <<"Sqrt", "Abs", "Neg", "Set", "NextPlus", "NextMinus">>
      i   == Mod(Hash \div 7, 9)
      o   == IF i < 6 THEN bin[i+1] ELSE un[1 + Mod(Hash \div 63, 6)]
      E(via, z, a, b) == LET w == IF o \in {"Sqrt", "NextPlus", "NextMinus"} THEN "c" ELSE via
                         IN Ev(o, w, z, a, IF i < 6 THEN b ELSE 0, 0, IF w = "c" THEN k ELSE NoCx, <<>>, <<>>)
      F(via, z, a, b, d) == Ev("FMA", via, z, a, b, d, IF via = "c" THEN k ELSE NoCx, <<>>, <<>>)
  IN <<E("c", 3, 1, 2), LoadEv(4, x, k), E("m", 4, 4, 2), Same(3, 4), Dirty(5, k), E("c", 5, 1, 2), Same(3, 5)>>
     \o (IF i < 6 THEN <<LoadEv(4, y, k), E("c", 4, 1, 4), Same(3, 4),
                         Fresh(4, k), E("m", 4, 2, 2), LoadEv(5, y, k), E("c", 5, 5, 5), Same(4, 5)>> ELSE <<>>)
     \o (IF i = 2 THEN <<Fresh(4, k), F("c", 4, 1, 2, 1), LoadEv(5, x, k), F("m", 5, 5, 2, 5), Same(4, 5),
                         Fresh(4, k), F("c", 4, 1, 1, 2), LoadEv(5, y, k), F("c", 5, 1, 1, 5), Same(4, 5)>> ELSE <<>>)
OpsOf(k) ==
  CASE LAW = "add" -> Flat(<<Bin("Add", k), Bin("Sub", k), Bin("Mul", k)>>)
                      \o <<Ev("FMA", "m", 3, 1, 2, 1, NoCx, <<>>, <<>>), Ev("FMA", "c", 4, 2, 2, 1, k, <<>>, <<>>),
                           Ev("FMA", "c", 4, 1, 1, 2, k, <<>>, <<>>), Ev("Add", "c", 1, 1, 2, 0, k, <<>>, <<>>)>>
    [] LAW = "quo" -> Bin("Quo", k) \o <<Ev("Quo", "c", 2, 1, 2, 0, k, <<>>, <<>>)>>
    [] LAW = "int" -> Bin("QuoInt", k) \o Bin("Rem", k) \o <<Ev("QuoRem", "m", 3, 1, 2, 5, NoCx, <<>>, <<>>), Ev("Rem", "c", 2, 1, 2, 0, k, <<>>, <<>>)>>
    [] LAW = "cmp" -> <<Ev("Cmp", "m", 0, 1, 2, 0, NoCx, <<>>, <<>>), Ev("Cmp", "m", 0, 2, 1, 0, NoCx, <<>>, <<>>),
                        Ev("MaxMin", "m", 0, 0, 0, 0, NoCx, <<1, 2>>, <<>>)>>
    [] LAW \in {"range", "conds", "special", "go"} ->
         Flat(<<Bin("Add", k), Bin("Sub", k), Bin("Mul", k), Bin("Quo", k), Bin("QuoInt", k), Bin("Rem", k)>>)
         \o <<Ev("QuoRem", "c", 4, 1, 2, 5, k, <<>>, <<>>), Ev("FMA", "c", 4, 1, 2, 1, k, <<>>, <<>>)>>
         \o Flat([i \in 1..6 |-> Un(<<"Sqrt", "Abs", "Neg", "Set", "NextPlus", "NextMinus">>[i], k)])
         \o In("Round", k, <<>>) \o In("Quantize", k, <<1>>) \o In("Reduce", k, <<>>)
    [] LAW = "root" -> Un("Sqrt", k) \o <<Ev("Sqrt", "c", 1, 1, 0, 0, k, <<>>, <<>>)>>
    [] LAW = "quantize" -> Flat([i \in 1..8 |-> In("Quantize", k, <<i - 4>>)]) \o In("RoundToInt", k, <<>>)
                           \o In("Round", k, <<>>) \o Un("Floor", k) \o Un("Ceil", k) \o Un("Set", k)
    [] LAW = "next" -> Un("NextPlus", k) \o Un("NextMinus", k) \o <<Ev("NextPlus", "c", 1, 1, 0, 0, k, <<>>, <<>>)>>
    [] LAW = "minor" -> <<Ev("Preds", "m", 0, 1, 0, 0, NoCx, <<>>, <<>>)>>
                        \o Un("Abs", k) \o Un("Neg", k) \o In("Reduce", k, <<>>)
                        \o <<Ev("CopyAbs", "m", 4, 1, 0, 0, NoCx, <<>>, <<>>), Ev("CopyNeg", "m", 4, 1, 0, 0, NoCx, <<>>, <<>>),
                             Ev("CopySign", "m", 4, 1, 3, 0, NoCx, <<>>, <<>>), Ev("Canonical", "m", 4, 1, 0, 0, NoCx, <<>>, <<>>)>>
    [] LAW = "text" -> <<Ev("String", "m", 0, 1, 0, 0, NoCx, <<>>, <<>>), Ev("SetString", "m", 4, 0, 0, 0, NoCx, <<>>, <<SciString(x, 0)>>)>>
    [] LAW = "parse" -> <<Ev("SetString", "m", 3, 0, 0, 0, NoCx, <<>>, <<x>>), Ev("SetString", "t", 4, 0, 0, 0, NoCx, <<>>, <<x>>), Ev("SetString", "c", 5, 0, 0, 0, k, <<>>, <<x>>)>>
    [] LAW = "format" -> [i \in 1..8 |-> Fmt(<<101, 102, 103, 69, 102, 115, 101, 102>>[i], <<0, 0, 0, 1, 8, 0, 4, 2>>[i],
                                             <<-1, -1, -1, 9, 9, -1, 8, 9>>[i], <<1, 2, 2, 2, 1, 1, 3, 3>>[i])]
    [] LAW = "alias" -> AliasOps(k)
    [] LAW = "bin" -> <<Ev("Float64", "m", 0, 1, 0, 0, NoCx, <<>>, <<>>), Ev("Float", "m", 0, 1, 0, 0, NoCx, <<4>>, <<>>),
                        Ev("Int", "m", 0, 1, 0, 0, NoCx, <<>>, <<>>), Ev("Rat", "m", 0, 1, 0, 0, NoCx, <<>>, <<>>)>>
History ==
  (IF LAW = "parse" THEN <<Fresh(1, c)>> ELSE <<LoadEv(1, x, c)>>) \o (IF Binary THEN <<LoadEv(2, y, c)>> ELSE <<>>)
  \o <<Fresh(3, c), Fresh(4, c), Fresh(5, c)>> \o OpsOf(c)

\* a constraint, as it is evaluated once for each state
Write == IF ph = 1 /\ HIST # "" /\ Mod(Hash, Every) = 0
         THEN CSVWrite("%1$s", <<ToJson(History)>>, HIST) ELSE TRUE
=============================================================================
