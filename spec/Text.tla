-------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Texts: what a decimal is printed as, which strings denote which decimal,*)
(* and the interchange forms.  A text is the sequence of its bytes.        *)
(***************************************************************************)
EXTENDS GDA

Cc(n, c)  == [i \in 1..n |-> c]            \* n times the byte c
Zeros(n)  == Cc(n, 48)
NaN_      == <<78, 97, 78>>
SNaN_     == <<115, 78, 97, 78>>
Infinity_ == <<73, 110, 102, 105, 110, 105, 116, 121>>
Inf_      == <<73, 110, 102>>
Null_     == <<110, 117, 108, 108>>
Minus == 45  Plus == 43  Dot == 46  Space == 32  Quote == 34  Backquote == 96
SGDA == 69   SGo == 101                   \* E, e

IntText(i) == IF i < 0 THEN <<Minus>> \o BDec(BI(i)) ELSE BDec(BI(i))

-----------------------------------------------------------------------------
(* Printing: to-scientific-string of the GDA specification and its relatives *)

\* the digits D, times 10^e, without an exponent; e <= 0
PlainText(D, e) ==
  LET n == Len(D) r == n + e
  IN IF r > 0 THEN SubSeq(D, 1, r) \o (IF r < n THEN <<Dot>> \o SubSeq(D, r + 1, n) ELSE <<>>)
     ELSE <<48, Dot>> \o Zeros(-r) \o D
SciText(D, e, E) ==
  LET a == e + Len(D) - 1
  IN <<D[1]>> \o (IF Len(D) > 1 THEN <<Dot>> \o Tail(D) ELSE <<>>)
     \o <<E>> \o (IF a >= 0 THEN <<Plus>> ELSE <<>>) \o IntText(a)

\* how: "normal" (either form), "plain", "sci"
Body(how, D, e, E, zero) ==
  IF how # "sci" /\ e <= 0 /\ (how = "plain" \/ e + Len(D) - 1 >= -6) THEN PlainText(D, e)
  ELSE IF how = "plain" THEN D \o (IF zero THEN <<>> ELSE Zeros(e))
  ELSE SciText(D, e, E)

\* the coefficient and exponent of x with n significant digits in rounding mode r
SigDigits(x, n, r) ==
  LET D == BDigits(x.c)
  IN IF n >= D THEN <<BDec(x.c) \o Zeros(n - D), x.e - (n - D)>>
     ELSE LET q == RoundOff(r, x.s, x.c, D - n, FALSE)
          IN IF BDigits(q) > n THEN <<BDec(BDrop(q, 1)), x.e + (D - n) + 1>> ELSE <<BDec(q), x.e + (D - n)>>

SpecialText(x, mode) ==
  IF mode = 1 THEN (IF IsNaN(x) THEN NaN_ ELSE IF x.s = 1 THEN <<Minus>> \o Inf_ ELSE <<Plus>> \o Inf_)
  ELSE (IF x.s = 1 THEN <<Minus>> ELSE <<>>)
       \o (IF IsInf(x) THEN Infinity_
           ELSE (IF IsSNaN(x) THEN SNaN_ ELSE NaN_) \o (IF x.l = BZero THEN <<>> ELSE BDec(x.l)))

\* x, with n significant digits (0: all of them), sign "" or "+" or " " for positive numbers
NumText(x, mode, how, n, r, sgn, E) ==
  IF ~IsFin(x) THEN SpecialText(x, mode)
  ELSE IF mode = 1 /\ x.c = BZero THEN <<48>>
  ELSE LET sd == IF n = 0 THEN <<BDec(x.c), x.e>> ELSE SigDigits(x, n, r)
       IN (IF x.s = 1 THEN <<Minus>> ELSE sgn) \o Body(how, sd[1], sd[2], E, x.c = BZero)
ExpChar(mode) == IF mode = 1 THEN SGo ELSE SGDA
SciString(x, mode) == NumText(x, mode, "normal", 0, 0, <<>>, ExpChar(mode))

\* The verbs of package fmt.  flags: 1 plus, 2 minus, 4 space, 8 zero, 16 sharp;
\* width and precision: -1 if there is none
Bit(flags, b) == (flags \div b) % 2 = 1
VerbText(x, mode, r, verb, flags, prec) ==
  LET sgn == IF Bit(flags, 1) THEN <<Plus>> ELSE IF Bit(flags, 4) THEN <<Space>> ELSE <<>>
      n   == Max2(prec, 0)
      E   == ExpChar(mode)
  IN CASE verb \in {100, 115, 118} -> NumText(x, mode, "normal", n, r, sgn, E)              \* d s v
       [] verb = 113 -> LET q == IF Bit(flags, 16) THEN Backquote ELSE Quote                \* q
                        IN <<q>> \o NumText(x, mode, "normal", n, r, <<>>, E) \o <<q>>
       [] verb \in {69, 101} -> NumText(x, mode, "sci", n, r, sgn, verb)                    \* E e
       [] verb \in {71, 103} -> NumText(x, mode, "plain", n, r, sgn, E)                     \* G g
       [] verb \in {70, 102} ->                                                            \* F f
            IF prec < 0 \/ ~IsFin(x) THEN NumText(x, mode, "plain", 0, r, sgn, E)
            ELSE LET d == -prec - x.e      \* digits to drop
                     q == IF d > 0 THEN RoundOff(r, x.s, x.c, d, FALSE) ELSE BShift(x.c, -d)
                 IN (IF x.s = 1 THEN <<Minus>> ELSE sgn) \o PlainText(BDec(q), -prec)
FormatText(x, mode, r, verb, flags, width, prec) ==
  LET t    == VerbText(x, mode, r, verb, flags, prec)
      pad  == Max2(0, width - Len(t))
      zero == Bit(flags, 8) /\ ~Bit(flags, 2) /\ IsFin(x)
  IN IF pad = 0 THEN t
     ELSE IF Bit(flags, 2) THEN t \o Cc(pad, Space)
     ELSE IF ~zero THEN Cc(pad, Space) \o t
     ELSE IF t[1] \in {Minus, Plus, Space} THEN <<t[1]>> \o Zeros(pad) \o Tail(t)
     ELSE Zeros(pad) \o t

-----------------------------------------------------------------------------
(* Parsing.  The grammar:                                                  *)
(*   digits  ::= digit+         sign ::= "+" | "-"                         *)
(*   number  ::= (digits ["." [digits]] | "." digits) [("e"|"E") [sign] digits] *)
(*   inf     ::= "inf" | "infinity"        (in any case)                   *)
(*   nan     ::= ["q"|"s"] "nan" [digits]  (in any case; digits < 2^64)    *)
(*   string  ::= [sign] (number | inf | nan)                               *)

IsDigit(c) == c >= 48 /\ c <= 57
Lower(c)   == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
\* the first position >= i of s whose byte isn't one of those in S (TLC is slow at long recursions)
FirstNot(s, i, S) ==
  LET T == {k \in i..Len(s) : s[k] \notin S}
  IN IF T = {} THEN Max2(i, Len(s) + 1) ELSE CHOOSE m \in T : \A n \in T : m <= n
\* the first position >= i that doesn't hold a digit
DigitsEnd(s, i) == FirstNot(s, i, 48..57)
\* the text w (of lower case letters) is at position i
LooksAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : Lower(s[i+k-1]) = w[k]
nan_ == <<110, 97, 110>>
inf_ == <<105, 110, 102>>
infinity_ == <<105, 110, 102, 105, 110, 105, 116, 121>>

\* the library's limits on exponents as texts: 2*(10^18-1), or beyond
ExpLimit == BMul(BI(2), BSub(BPow10(18), BOne))
\* big integers as exponents
SatInt(b) == IF BLe(BI(Far), b) THEN Far ELSE IF BLe(b, BI(-Far)) THEN -Far ELSE BInt(b)

Malformed == [ok |-> FALSE, o |-> Inv(QNaN(0), {ConvSyntax})]
Parsed(v, f) == [ok |-> TRUE, o |-> Out(v, f)]

ParseNumber(s, i, sg) ==
  LET a  == DigitsEnd(s, i)                                    \* integral digits i..a-1
      pt == a <= Len(s) /\ s[a] = Dot
      b  == IF pt THEN DigitsEnd(s, a + 1) ELSE a              \* fractional digits a+1..b-1
      ip == SubSeq(s, i, a - 1)
      fp == IF pt THEN SubSeq(s, a + 1, b - 1) ELSE <<>>
      hasE == b <= Len(s) /\ Lower(s[b]) = 101
      es == hasE /\ b + 1 <= Len(s) /\ s[b+1] \in {Plus, Minus}
      c0 == b + (IF es THEN 2 ELSE 1)
      c1 == IF hasE THEN DigitsEnd(s, c0) ELSE b
      C  == BParse(ip \o fp)
      E0 == IF hasE THEN BParse(SubSeq(s, c0, c1 - 1)) ELSE BZero
      neg== es /\ s[b+1] = Minus
      e  == SatInt(BSub(IF neg THEN BNeg(E0) ELSE E0, BI(Len(fp))))
  IN IF (ip = <<>> /\ fp = <<>>) \/ (hasE /\ c1 = c0) \/ c1 <= Len(s) THEN Malformed
     ELSE IF BLe(E0, ExpLimit) THEN Parsed(Fin(sg, C, e), {})
     ELSE IF C = BZero THEN Parsed(ZeroV(sg, IF neg THEN -Far ELSE Far), {Clamped})
     ELSE IF neg THEN Parsed(ZeroV(sg, -Far), {Underflow, Inexact, Rounded, Subnormal})
     ELSE Parsed(InfV(sg), {Overflow, Inexact, Rounded})

ParseNaN(s, i, sg, k) ==
  IF ~LooksAt(s, i, nan_) \/ DigitsEnd(s, i + 3) <= Len(s) THEN Malformed
  ELSE LET l == BParse(SubSeq(s, i + 3, Len(s)))
       IN IF BLt(l, BPow(BI(2), 64)) THEN Parsed(NaNV(k, sg, l), {}) ELSE Malformed

Parse(s) ==
  LET sg == IF s # <<>> /\ s[1] = Minus THEN 1 ELSE 0
      i  == IF s # <<>> /\ s[1] \in {Plus, Minus} THEN 2 ELSE 1
  IN IF i > Len(s) THEN Malformed
     ELSE IF IsDigit(s[i]) \/ s[i] = Dot THEN ParseNumber(s, i, sg)
     ELSE CASE Lower(s[i]) = 105 -> IF (LooksAt(s, i, inf_) /\ Len(s) = i + 2) \/ (LooksAt(s, i, infinity_) /\ Len(s) = i + 7)
                                    THEN Parsed(InfV(sg), {}) ELSE Malformed
            [] Lower(s[i]) = 110 -> ParseNaN(s, i, sg, 2)
            [] Lower(s[i]) = 113 -> ParseNaN(s, i + 1, sg, 2)
            [] Lower(s[i]) = 115 -> ParseNaN(s, i + 1, sg, 3)
            [] OTHER -> Malformed

\* the token fmt.Sscan hands to Scan
Blank == {9, 10, 11, 12, 13, 32}
Token(s) == LET i == FirstNot(s, 1, Blank) IN SubSeq(s, i, FirstNot(s, i, (0..255) \ Blank) - 1)
Unquote(s) == IF Len(s) >= 2 /\ s[1] = Quote /\ s[Len(s)] = Quote THEN SubSeq(s, 2, Len(s) - 1) ELSE s

-----------------------------------------------------------------------------
(* Names *)
CondName(b) ==
  CASE b = Clamped -> "clamped" [] b = ConvSyntax -> "conversion syntax" [] b = DivByZero -> "division by zero"
    [] b = DivImpossible -> "division impossible" [] b = DivUndefined -> "division undefined" [] b = Inexact -> "inexact"
    [] b = InsufStorage -> "insufficient storage" [] b = InvalidContext -> "invalid context"
    [] b = InvalidOp -> "invalid operation" [] b = Overflow -> "overflow" [] b = Rounded -> "rounded"
    [] b = Subnormal -> "subnormal" [] b = Underflow -> "underflow"
RECURSIVE CondNames(_)
CondNames(S) ==
  IF S = {} THEN ""
  ELSE LET b == CHOOSE x \in S : \A y \in S : x <= y
       IN CondName(b) \o (IF S = {b} THEN "" ELSE ", " \o CondNames(S \ {b}))
RoundingName(r) ==
  CASE r = HalfEven -> "ToNearestEven" [] r = HalfUp -> "ToNearestAway" [] r = Down -> "ToZero" [] r = Up -> "AwayFromZero"
    [] r = Floor_ -> "ToNegativeInf" [] r = Ceiling -> "ToPositiveInf" [] r = HalfDown -> "ToNearestTowardZero"
    [] OTHER -> ""
ModeName(m) == IF m = 0 THEN "GDA" ELSE IF m = 1 THEN "Go" ELSE ""

-----------------------------------------------------------------------------
(* Interchange *)
RECURSIVE BytesNumber(_, _)
\* the number whose bytes, most significant first, are s[1..n]
BytesNumber(s, n) == IF n = 0 THEN BZero ELSE BAdd(BMul(BytesNumber(s, n - 1), BI(256)), BI(s[n]))

\* SQL
MaxIntegral == 131072  MaxFractional == 16383
=============================================================================
