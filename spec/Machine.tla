------------------------------- MODULE Machine --------------------------------
(***************************************************************************)
(* The library as a state machine.  Its state are the registers 1..NReg,   *)
(* each of which holds a decimal:                                          *)
(*    k s c e l   its value (see GDA.tla)                                  *)
(*    q           the conditions accumulated in its Context                *)
(*    P R M lo hi T   the rest of its Context                              *)
(*    pr mf       what Precision() and Mantissa() say of its coefficient   *)
(* A transition is an event: an operation o with registers z x y u, an     *)
(* explicit Context cx or <<>>, integers a, and big integers or strings b. *)
(* What the call did is part of the event: the registers that changed (d), *)
(* the results it returned (r, rb, rs), whether it panicked (pn), and      *)
(* whether an argument that must not change did (ar).                      *)
(*                                                                         *)
(* Judge gives the set of the aspects in which the event differs from what *)
(* the machine allows: the machine's transitions are those for which it is *)
(* empty.                                                                  *)
(***************************************************************************)
EXTENDS GDA, Text, Reals

NReg == 6
MachineInit ==
  [i \in 1..NReg |-> [k |-> 0, s |-> 0, c |-> BZero, e |-> 0, l |-> BZero, q |-> 0,
                      P |-> 0, R |-> 0, M |-> 0, T |-> 0, lo |-> 0, hi |-> 0, pr |-> 1, mf |-> 1]]

\* the registers after the event, as logged
Apply(R, d) == [i \in 1..NReg |-> IF \E j \in 1..Len(d) : d[j][1] = i
                                  THEN d[CHOOSE j \in 1..Len(d) : d[j][1] = i][2] ELSE R[i]]

Val(r)    == [k |-> r.k, s |-> r.s, c |-> r.c, e |-> r.e, l |-> r.l]
CtxOf(r)  == Ctx(r.P, r.R, r.M, r.lo, r.hi)
CtxIn(ev, R) == IF ev.cx = <<>> THEN CtxOf(R[ev.z]) ELSE Ctx(ev.cx[1], ev.cx[2], ev.cx[3], ev.cx[4], ev.cx[5])
SameCtx(a, b) == a.P = b.P /\ a.R = b.R /\ a.M = b.M /\ a.T = b.T /\ a.lo = b.lo /\ a.hi = b.hi
SameReg(a, b) == SameCtx(a, b) /\ Val(a) = Val(b) /\ a.q = b.q /\ a.pr = b.pr /\ a.mf = b.mf

\* no coefficient of 2^64-1 or more is compact
MaxCompact == BSub(BPow(BI(2), 64), BOne)
RepOK(r) == IF r.k = 0 THEN r.pr = BDigits(r.c) /\ r.mf = (IF BLt(r.c, MaxCompact) THEN 1 ELSE 0)
                            /\ r.l = BZero /\ BSgn(r.c) >= 0
            ELSE r.pr = 0 /\ r.mf = 0

\* exponents that TLC's integers don't hold
FarVal(v) == v.k = 0 /\ (v.e > 1000000000 \/ v.e < -1000000000)

Mask(S) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET b == CHOOSE x \in T : TRUE IN b + f[T \ {b}] IN f[S]

-----------------------------------------------------------------------------
(* How an observed register can differ from an outcome *)

ValueAspects(o, w) ==
  IF o.k # w.k THEN {"class"}
  ELSE FlagIf(o.s # w.s, "sign")
       \cup (IF o.k = 0 THEN (IF o.c = w.c /\ o.e = w.e THEN {}
                              ELSE IF CmpMag(o, w) = 0 THEN {"cohort"} ELSE {"value"})
             ELSE IF o.k >= 2 /\ o.l # AnyPayload /\ o.l # w.l THEN {"payload"} ELSE {})

\* the receiver i has the outcome o
OutAspects(R, N, i, o) ==
  ValueAspects(o.v, Val(N[i]))
  \cup (IF R[i].M = 1 THEN {}
        ELSE LET want == Conds(R[i].q) \cup o.f
                 have == Conds(N[i].q)
             IN FlagIf(~(Conds(R[i].q) \subseteq have), "lost")
                \cup (IF want = have THEN {}
                      ELSE {"cond"} \cup FlagIf(InvalidOp \in ((want \ have) \cup (have \ want)), "condI")
                           \cup FlagIf({Overflow, Underflow, Subnormal, Clamped} \cap ((want \ have) \cup (have \ want)) # {}, "condR")))
  \cup FlagIf(~SameCtx(R[i], N[i]), "ctx")

\* outcomes: a sequence of <<register, outcome>>; ret: how many receivers are returned
OutsAspects(ev, R, N, outs, ret) ==
  LET pan == \E j \in 1..Len(outs) : outs[j][2].inv /\ R[outs[j][1]].M = 1
      want == IF pan THEN 1 ELSE 0
  IN IF ev.pn # want THEN {"panic"}
     ELSE IF pan THEN {}
     ELSE UNION {OutAspects(R, N, outs[j][1], outs[j][2]) : j \in 1..Len(outs)}
          \cup FlagIf(ev.r # [j \in 1..ret |-> 1], "ret")

-----------------------------------------------------------------------------
(* Operations whose outcome is a function of their operands *)

Arith(ev, R) ==
  LET cx == CtxIn(ev, R)
      x == Val(R[ev.x])  y == Val(R[ev.y])  u == Val(R[ev.u])  z == Val(R[ev.z])
  IN CASE ev.o = "Add" -> Add(cx, x, y)
       [] ev.o = "Sub" -> Sub(cx, x, y)
       [] ev.o = "Mul" -> Mul(cx, x, y)
       [] ev.o = "FMA" -> FMA(cx, x, y, u)
       [] ev.o = "Quo" -> Quo(cx, x, y)
       [] ev.o = "QuoInt" -> QuoInt(cx, x, y)
       [] ev.o = "Rem" -> Rem(cx, x, y)
       [] ev.o = "Sqrt" -> Sqrt(cx, x)
       [] ev.o = "Abs" -> Abs(cx, x)
       [] ev.o = "Neg" -> Neg(cx, x)
       [] ev.o = "Set" -> Set(cx, x)
       [] ev.o = "Floor" -> Floor(cx, x)
       [] ev.o = "Ceil" -> Ceil(cx, x)
       [] ev.o = "NextPlus" -> NextPlus(cx, x)
       [] ev.o = "NextMinus" -> NextMinus(cx, x)
       [] ev.o = "Quantize" -> Quantize(cx, z, ev.a[1])
       [] ev.o = "RoundToInt" -> RoundToInt(cx, z)
       [] ev.o = "Reduce" -> Reduce(cx, z)
       [] ev.o = "Round" -> IF ev.v # "m" THEN Round(cx, z)
                            ELSE IF ev.a[1] <= 0 THEN Out(z, {})
                            ELSE Round(Ctx(ev.a[1], R[ev.z].R, R[ev.z].M, R[ev.z].lo, R[ev.z].hi), z)
       [] ev.o = "SetRat" -> SetRat(cx, ev.b[1], ev.b[2])
BinaryOps == {"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem"}
UnaryOps  == {"Sqrt", "Abs", "Neg", "Set", "Floor", "Ceil", "NextPlus", "NextMinus"}
InPlaceOps == {"Quantize", "RoundToInt", "Reduce", "Round"}
ArithOps  == BinaryOps \cup UnaryOps \cup InPlaceOps \cup {"FMA", "SetRat"}

\* operations that neither round nor raise conditions
Quiet(ev, R) ==
  LET x == Val(R[ev.x])  y == Val(R[ev.y])  z == Val(R[ev.z])
  IN CASE ev.o \in {"Copy", "Canonical"} -> x
       [] ev.o = "CopyAbs" -> CopyAbs(x)
       [] ev.o = "CopyNeg" -> CopyNeg(x)
       [] ev.o = "CopySign" -> CopySign(x, y)
       [] ev.o = "SetSignbit" -> WithSign(z, ev.a[1])
       [] ev.o = "SetScale" -> IF IsFin(z) THEN [z EXCEPT !.e = -ev.a[1]] ELSE z
       [] ev.o = "SetInf" -> InfV(ev.a[1])
       [] ev.o = "SetNaN" -> NaNV(2 + ev.a[1], 0, BZero)
       [] ev.o = "SetUint64" -> Fin(0, ev.b[1], 0)
       [] ev.o \in {"SetMantScale", "SetBigMantScale"} -> Fin(SignBit(ev.b[1]), BAbs(ev.b[1]), -ev.a[1])
       [] ev.o = "SetFloat64" -> FloatValue(ev.a[1], ev.a[2], ev.a[3], ev.b[1])
       [] ev.o = "SetFloat" -> FloatValue(ev.a[1], ev.a[2], ev.a[3], ev.b[1])
QuietOps == {"Copy", "Canonical", "CopyAbs", "CopyNeg", "CopySign", "SetSignbit", "SetScale", "SetInf",
             "SetNaN", "SetUint64", "SetMantScale", "SetBigMantScale", "SetFloat64", "SetFloat"}

-----------------------------------------------------------------------------
(* Registers assigned by the user *)

CtxFields(r, cx, T, q) == [r EXCEPT !.P = cx[1], !.R = cx[2], !.M = cx[3], !.lo = cx[4], !.hi = cx[5], !.T = T, !.q = q]
NewReg(v, cx, T, q) == [k |-> v.k, s |-> v.s, c |-> v.c, e |-> v.e, l |-> v.l, q |-> q,
                        P |-> cx[1], R |-> cx[2], M |-> cx[3], T |-> T, lo |-> cx[4], hi |-> cx[5],
                        pr |-> IF v.k = 0 THEN BDigits(v.c) ELSE 0,
                        mf |-> IF v.k = 0 /\ BLt(v.c, MaxCompact) THEN 1 ELSE 0]
NoCtx == <<0, 0, 0, 0, 0>>

Assigned(ev, R) ==
  CASE ev.o = "New" -> NewReg(Fin(SignBit(ev.b[1]), BAbs(ev.b[1]), -ev.a[1]), NoCtx, 0, 0)
    [] ev.o = "WithContext" -> NewReg(ZeroV(0, 0), ev.cx, 0, Len(ev.a) % 2)
    [] ev.o = "WithPrecision" -> IF ev.a[1] < 0 \/ ev.a[1] > Unlimited
                                 THEN NewReg(NaNV(2, 0, AnyPayload), NoCtx, 0, InvalidContext)
                                 ELSE NewReg(ZeroV(0, 0), <<IF ev.a[1] = 0 THEN 16 ELSE ev.a[1], 0, 0, 0, 0>>, 0, 0)
    [] ev.o = "SetCtx" -> CtxFields(R[ev.z], ev.cx, ev.a[1], ev.a[2])
    [] ev.o = "Load" -> NewReg(IF ev.a[2] = 0 THEN Fin(ev.a[3], ev.b[1], ev.a[4])
                               ELSE IF ev.a[2] = 1 THEN InfV(ev.a[3])
                               ELSE NaNV(ev.a[2], ev.a[3], ev.b[2]), ev.cx, ev.a[6], ev.a[5])
AssignOps == {"New", "WithContext", "WithPrecision", "SetCtx", "Load"}
AssignAspects(ev, R, N) ==
  LET w == Assigned(ev, R) n == N[ev.z]
  IN ValueAspects(Val(w), Val(n)) \cup FlagIf(~SameCtx(w, n) \/ w.q # n.q, "ctx") \cup FlagIf(ev.pn # 0, "panic")

-----------------------------------------------------------------------------
(* Predicates and comparisons *)
BI01(b) == IF b THEN 1 ELSE 0
PredAspects(ev, R) ==
  LET x == Val(R[ev.x])
      emin == CtxOf(R[ev.x]).lo
      nz == NonZero(x)
      fit == IsFin(x) /\ BLt(x.c, MaxCompact)
      want == <<SgnOf(x), x.s, BI01(IsFin(x)),
                BI01(IsInf(x)), BI01(IsInf(x) /\ x.s = 0), BI01(IsInf(x) /\ x.s = 1),
                BI01(IsNaN(x)), BI01(x.k = 2), BI01(x.k = 3),
                BI01(IsIntV(x)), BI01(nz /\ Adj(x) >= emin), BI01(nz /\ Adj(x) < emin),
                IF IsFin(x) THEN -x.e ELSE ev.r[13],
                IF IsFin(x) THEN BDigits(x.c) ELSE 0, BI01(fit), BI01(fit)>>
      m == IF fit THEN x.c ELSE BZero
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r # want, "pred")
          \cup FlagIf(ev.r[10] # want[10] \/ ev.r[1] # want[1] \/ ev.r[15] # want[15] \/ ev.rb[1] # m, "predN")
          \cup FlagIf(ev.rb # <<m, m, IF IsNaN(x) THEN x.l ELSE BZero>>, "mant")
          \cup FlagIf(ev.n # <<Class(x, emin)>>, "name")

CmpAspects(ev, R) ==
  LET x == Val(R[ev.x]) y == Val(R[ev.y])
      t == CmpTotal(x, y)  ta == CmpTotalAbs(x, y)
      q == IF IsFin(x) /\ IsFin(y) THEN BI01(x.e = y.e) ELSE ev.r[5]
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r[1] # Cmp(x, y), "cmp") \cup FlagIf(ev.r[2] # CmpAbsV(x, y), "cmpabs")
          \cup FlagIf(ev.r[3] # t \/ ev.r[6] # t, "total")
          \cup FlagIf(ev.r[4] # ta \/ ev.r[7] # ta, "totalabs")
          \cup FlagIf(ev.r[5] # q \/ ev.r[8] # q, "quantum")

\* one of the arguments, and an extreme one (whatever it is if there is a NaN)
MaxMinAspects(ev, R) ==
  LET v(i) == Val(R[i])
      I == {ev.a[j] : j \in 1..Len(ev.a)}
      nan == \E i \in I : IsNaN(v(i))
      first2 == {ev.a[1], ev.a[2]}
      ok(k, S, C(_,_), sg) == k \in S /\ (nan \/ \A i \in S : sg * C(v(k), v(i)) >= 0)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(~(/\ ok(ev.r[1], first2, Cmp, 1) /\ ok(ev.r[2], I, Cmp, 1)
                   /\ ok(ev.r[3], I, Cmp, -1) /\ ok(ev.r[4], I, Cmp, -1)
                   /\ ok(ev.r[5], I, CmpAbsV, 1) /\ ok(ev.r[6], I, CmpAbsV, 1)
                   /\ ok(ev.r[7], I, CmpAbsV, -1) /\ ok(ev.r[8], I, CmpAbsV, -1)), "maxmin")

\* Context.Err: whether a trapped condition was raised, and its description
ErrAspects(ev, R) ==
  LET c == Conds(R[ev.z].q) \cap Conds(R[ev.z].T)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r # <<BI01(c # {})>>, "err")
          \cup FlagIf(c # {} /\ ev.n # <<CondNames(c)>>, "name")
NamesAspects(ev) ==
  LET n == CondNames(Conds(ev.a[1]))
  IN IF ev.pn # 0 THEN {"panic"} ELSE FlagIf(ev.n # <<n, n, RoundingName(ev.a[2]), ModeName(ev.a[3])>>, "name")

-----------------------------------------------------------------------------
(* Conversions to Go's numbers *)
MaxI64 == BSub(BPow(BI(2), 63), BOne)
MaxU64 == MaxCompact
IntAspects(ev, R) ==
  LET x == Val(R[ev.x])
      t == IF IsFin(x) THEN Trunc(x) ELSE BZero
      okI == IsFin(x) /\ BLe(t, MaxI64) /\ BLe(BNeg(BAdd(MaxI64, BOne)), t)
      okU == IsFin(x) /\ x.s = 0 /\ BLe(t, MaxU64)
      keep == Len(ev.a) > 0 /\ ev.a[1] = 1     \* Int of a special leaves its argument
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r # <<BI01(okI), BI01(okU)>>, "ok")
          \cup FlagIf(okI /\ ev.rb[1] # t, "int64") \cup FlagIf(okU /\ ev.rb[2] # t, "uint64")
          \cup FlagIf(IsFin(x) /\ ev.rb[3] # t, "int")
RatAspects(ev, R) ==
  LET x == Val(R[ev.x])
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF ~IsFin(x) THEN FlagIf(ev.rb # <<BZero, BOne>>, "rat")
     ELSE \* n/d = x, d > 0, in lowest terms (big.Rat keeps them normal)
          LET n == ev.rb[1] d == ev.rb[2]
          IN FlagIf(BSgn(d) <= 0 \/ (IF x.e >= 0 THEN n # BMul(BShift(Signed(x), x.e), d)
                                     ELSE BShift(n, -x.e) # BMul(Signed(x), d)), "rat")

-----------------------------------------------------------------------------
(* Binary floats: r = class, sign, exponent of two, ...; rb = mantissa *)
Float64Aspects(ev, R) ==
  LET x == Val(R[ev.x])
      b == RoundBin(x.c, x.e, 53, -1074)
      over == b[1] # BZero /\ BBits(b[1]) + b[2] > 1024
      under == x.c # BZero /\ b[1] = BZero
      small == x.e = 0 /\ BLt(x.c, BPow(BI(2), 53))      \* such integers fit
      lossy == x.e = 0 /\ BLt(x.c, BSub(BPow(BI(2), 64), BOne)) /\ ~SameBin(b[1], b[2], x.c, 0)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF IsNaN(x) THEN FlagIf(ev.r[1] # 2, "float") \cup FlagIf(ev.r[4] # 1, "ok")
     ELSE IF IsInf(x) THEN FlagIf(<<ev.r[1], ev.r[2]>> # <<1, x.s>>, "float") \cup FlagIf(ev.r[4] # 1, "ok")
     ELSE FlagIf(ev.r[2] # x.s, "floatsign")
          \cup FlagIf(IF over THEN ev.r[1] # 1 ELSE ev.r[1] # 0 \/ ~SameBin(ev.rb[1], ev.r[3], b[1], b[2]), "float")
          \cup FlagIf(((over \/ under \/ lossy) /\ ev.r[4] # 0) \/ ((small \/ x.c = BZero) /\ ev.r[4] # 1), "ok")
FloatAspects(ev, R) ==
  LET x == Val(R[ev.x])
      b == RoundBin(x.c, x.e, ev.r[4], -Far)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF IsNaN(x) THEN {}
     ELSE FlagIf(ev.r[2] # x.s, "floatsign")
          \cup FlagIf(IF IsInf(x) THEN ev.r[1] # 1 ELSE ev.r[1] # 0 \/ ~SameBin(ev.rb[1], ev.r[3], b[1], b[2]), "float")
          \cup FlagIf(~IsInf(x) /\ (IF ev.a[1] > 0 THEN ev.r[4] # ev.a[1] ELSE ev.r[4] < 64), "prec")

-----------------------------------------------------------------------------
(* Texts *)
StringAspects(ev, R) ==
  LET t == SciString(Val(R[ev.x]), R[ev.x].M)
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r # <<0, 0>> \/ ev.rs # <<t, t, <<Quote>> \o t \o <<Quote>>, t>>, "text")
FormatAspects(ev, R) ==
  LET x == Val(R[ev.x])
      t == FormatText(x, R[ev.x].M, R[ev.x].R, ev.a[1], ev.a[2], ev.a[3], ev.a[4])
      \* how zeros with a positive exponent are printed isn't specified
      odd == IsFin(x) /\ x.c = BZero /\ x.e > 0 /\ ev.a[1] \in {71, 103} /\ ev.a[4] > 0
  IN IF ev.pn # 0 THEN {"panic"} ELSE FlagIf(~odd /\ ev.rs # <<t>>, "text")

\* r = ok, which pointer was returned (0 none, 1 the receiver), error
SetStringAspects(ev, R, N) ==
  LET s == CASE ev.v \in {"j", "J"} -> Unquote(ev.b[1]) [] ev.v = "s" -> Token(ev.b[1]) [] OTHER -> ev.b[1]
      p == Parse(s)
      null == ev.v \in {"j", "J"} /\ ev.b[1] = Null_
      fin == ev.v = "c" /\ IsFin(p.o.v)
      far == FarVal(p.o.v) \/ (p.o.v.k = 0 /\ p.o.v.e \in {Far, -Far})
      o == IF null THEN Out(Val(R[ev.z]), {})
           ELSE IF fin THEN LET f == FinishV(CtxIn(ev, R), p.o.v) IN [f EXCEPT !.f = @ \cup p.o.f]
           ELSE p.o
      failed == ev.r[3] = 1 \/ ev.r[1] = 0
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF p.ok \/ null
          THEN IF failed THEN {"refused"}
               ELSE FlagIf(ev.r[2] # 1, "ret")
                    \cup (IF fin /\ far THEN {} ELSE OutAspects(R, N, ev.z, o))
          ELSE \* NaN with ConversionSyntax, or an error
               IF failed THEN FlagIf(ev.v \in {"m", "c"} /\ ev.r[2] # 0, "ret")
               ELSE FlagIf(N[ev.z].k # 2 \/ ConvSyntax \notin Conds(N[ev.z].q), "accepted")
                    \cup FlagIf(Conds(N[ev.z].q) # Conds(R[ev.z].q) \cup {ConvSyntax}, "cond")

DecomposeAspects(ev, R) ==
  LET x == Val(R[ev.x]) IN
  IF ev.pn # 0 THEN {"panic"}
  ELSE IF ~IsFin(x) THEN FlagIf(ev.r[1] # (IF IsInf(x) THEN 1 ELSE 2) \/ (IsInf(x) /\ ev.r[2] # x.s), "form")
  ELSE FlagIf(ev.r # <<0, x.s, x.e>> \/ BytesNumber(ev.rs[1], Len(ev.rs[1])) # x.c, "form")
ComposeAspects(ev, R, N) ==
  LET v == CASE ev.a[1] = 0 -> Fin(ev.a[2], BytesNumber(ev.b[1], Len(ev.b[1])), ev.a[3])
             [] ev.a[1] = 1 -> InfV(ev.a[2])
             [] ev.a[1] = 2 -> NaNV(2, N[ev.z].s, BZero)
             [] OTHER -> Val(R[ev.z])
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE FlagIf(ev.r # <<BI01(ev.a[1] > 2)>>, "refused") \cup OutAspects(R, N, ev.z, Out(v, {}))

\* SQL.  r = kind (0 NULL, 1 text, 2 LengthError integral, 3 LengthError fractional, 4 error), N, V untouched
PgValueAspects(ev, R) ==
  LET x == Val(R[ev.x])  M == R[ev.x].M  rm == R[ev.x].R
      il == BDigits(x.c) + x.e
      q == RoundOff(rm, x.s, x.c, -MaxFractional - x.e, FALSE)
      text(t) == FlagIf(ev.r # <<1, 0, 1>>, "pg") \cup FlagIf(ev.r[1] = 1 /\ ev.rs # <<t>>, "text")
      rnd == ev.a[1] = 1
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF ev.a[3] = 1 THEN IF ev.a[2] = 1 THEN text(<<48>>) ELSE FlagIf(ev.r # <<0, 0, 1>>, "pg")
     ELSE IF IsNaN(x) THEN text(NaN_)
     ELSE IF IsInf(x) THEN FlagIf(ev.r # <<4, 0, 1>>, "pg")
     ELSE IF il > MaxIntegral
          THEN IF ~rnd THEN FlagIf(ev.r # <<2, il, 1>>, "pg")
               ELSE \* too large whether rounded or not; "pglarge" is a known finding: a text that isn't
                    \* within the limits, of the number rounded to MaxIntegral digits
                    IF ev.r[1] = 2 THEN {}
                    ELSE LET o == Round(Ctx(MaxIntegral, rm, M, R[ev.x].lo, R[ev.x].hi), x)
                         IN IF ev.r = <<1, 0, 1>> /\ ev.rs = <<SciString(o.v, M)>> THEN {"pglarge"} ELSE {"pg"}
     ELSE IF -x.e > MaxFractional
          THEN IF rnd THEN text(SciString(Fin(x.s, q, -MaxFractional), M)) ELSE FlagIf(ev.r # <<3, -x.e, 1>>, "pg")
     ELSE text(SciString(x, M))
\* Scan: of text or bytes; anything else is refused
PgScanAspects(ev, R, N) ==
  LET p == Parse(ev.b[1])
  IN IF ev.pn # 0 THEN {"panic"}
     ELSE IF ev.o = "PgScan" /\ ev.a[1] > 1
          THEN FlagIf(ev.r # <<1, 1>>, "refused") \cup OutAspects(R, N, ev.z, Out(Val(R[ev.z]), {}))
     ELSE IF p.ok
          THEN FlagIf(ev.r[1] = 1, "refused")
               \cup (IF ev.o = "PgScan" THEN OutAspects(R, N, ev.z, p.o)
                     ELSE ValueAspects(p.o.v, Val(N[ev.z])) \cup FlagIf(Conds(N[ev.z].q) # p.o.f, "cond"))
     ELSE FlagIf(ev.r[1] = 0 /\ (N[ev.z].k # 2 \/ ConvSyntax \notin Conds(N[ev.z].q)), "accepted")

-----------------------------------------------------------------------------
\* Two registers hold the same value and, unless via is "v", the same conditions
SameAspects(ev, R) ==
  LET a == R[ev.x] b == R[ev.y]
  IN FlagIf(Val(a) # Val(b), "differ") \cup FlagIf(ev.v # "v" /\ a.q # b.q, "differq") \cup FlagIf(a.pr # b.pr \/ a.mf # b.mf, "differrep")

-----------------------------------------------------------------------------
(* Functions of real analysis *)
RealOps == {"Exp", "Log", "Log10", "Pow", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot", "Pi", "E"}
            \cup SeriesOps
NearOps == {"Log10", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot"}
RealV(ev, cx, x, y) ==
  CASE ev.o = "Exp" -> ExpV(cx, x)
    [] ev.o = "Log" -> LogV(cx, x)
    [] ev.o = "Log10" -> Log10V(cx, x)
    [] ev.o = "Pow" -> PowV(cx, x, y)
    [] ev.o \in {"Sin", "Cos", "Tan"} -> TrigV(cx, ev.o, x)
    [] ev.o = "Asin" -> AsinV(cx, x)
    [] ev.o = "Acos" -> AcosV(cx, x)
    [] ev.o = "Atan" -> AtanV(cx, x)
    [] ev.o = "Atan2" -> Atan2V(cx, x, y)
    [] ev.o = "Hypot" -> HypotV(cx, x, y)
    [] ev.o = "Pi" -> PiV(cx)
    [] ev.o = "E" -> EV(cx)
RealAspects(ev, R, N) ==
  LET cx == CtxIn(ev, R)
      x == IF ev.x = 0 THEN OneV ELSE Val(R[ev.x])
      y == IF ev.y = 0 THEN OneV ELSE Val(R[ev.y])
      V == RealV(ev, cx, x, y)
      T == V.T
      w == Val(N[ev.z])
      outs == V.outs \cup (IF T = <<>> THEN {} ELSE RoundedT(cx, T) \cup (IF ev.o \in NearOps \/ T.x = 0 THEN NearT(cx, T) ELSE {}))
      name(a) == IF T = <<>> THEN a ELSE CASE a = "value" -> "real" [] a = "cohort" -> "digits" [] OTHER -> a
      as(o) == {name(a) : a \in OutsAspects(ev, R, N, <<<<ev.z, o>>>>, 1)} \ (IF T # <<>> /\ (T.free \/ ev.o \in NearOps \ {"Log10"}) THEN {"digits"} ELSE {})
      \* Go mode's results are not rounded
      go == T # <<>> /\ CtxGo(cx) /\ ev.pn = 0 /\ CloseT(cx, T, w, 1)
      all == {IF go THEN as(o) \ ({"real", "digits"} \cup FlagIf(Adj(w) <= cx.hi, "class")) ELSE as(o) : o \in outs}
      best == CHOOSE a \in all : \A b \in all : Cardinality(a) <= Cardinality(b)
  IN IF ev.o \in SeriesOps THEN SeriesAspects(ev, cx, N)
     ELSE IF V.any THEN FlagIf(ev.pn # 0 /\ R[ev.z].M # 1, "panic")
     ELSE IF T # <<>> /\ ~cx.unl /\ ~ThickT(cx, T) THEN {"thin"}
     ELSE best

-----------------------------------------------------------------------------
CheckNaNsOut(ev, R) ==
  LET x == Val(R[ev.x]) y == IF ev.y = 0 THEN OneV ELSE Val(R[ev.y])
  IN IF ~CtxOf(R[ev.z]).ok THEN BadCtx
     ELSE IF HasNaN(x, y) THEN NaNOut(x, y) ELSE Out(Val(R[ev.z]), {})

OpAspects(ev, R, N) ==
  CASE ev.o \in ArithOps -> OutsAspects(ev, R, N, <<<<ev.z, Arith(ev, R)>>>>, 1)
    [] ev.o = "QuoRem"   -> LET qr == QuoRem(CtxIn(ev, R), Val(R[ev.x]), Val(R[ev.y]))
                            IN OutsAspects(ev, R, N, <<<<ev.z, qr[1]>>, <<ev.u, qr[2]>>>>, 2)
    [] ev.o = "CheckNaNs"-> LET o == CheckNaNsOut(ev, R)
                            IN OutsAspects([ev EXCEPT !.r = <<1>>], R, N, <<<<ev.z, o>>>>, 1)
                               \cup FlagIf(ev.pn = 0 /\ ev.r # <<BI01(o.inv)>>, "ret")
    [] ev.o \in QuietOps -> LET v == Quiet(ev, R)
                            IN OutsAspects(ev, R, N, <<<<ev.z, IF ev.o = "SetFloat64" /\ IsNaN(v) THEN Inv(v, {}) ELSE Out(v, {})>>>>, 1)
    [] ev.o \in AssignOps-> AssignAspects(ev, R, N)
    [] ev.o = "Preds"    -> PredAspects(ev, R)
    [] ev.o = "Cmp"      -> CmpAspects(ev, R)
    [] ev.o = "MaxMin"   -> MaxMinAspects(ev, R)
    [] ev.o = "Err"      -> ErrAspects(ev, R)
    [] ev.o = "Names"    -> NamesAspects(ev)
    [] ev.o = "Same"     -> SameAspects(ev, R)
    [] ev.o = "Int"      -> IntAspects(ev, R)
    [] ev.o = "Rat"      -> RatAspects(ev, R)
    [] ev.o \in RealOps  -> RealAspects(ev, R, N)
    [] ev.o = "Float64"  -> Float64Aspects(ev, R)
    [] ev.o = "Float"    -> FloatAspects(ev, R)
    [] ev.o = "String"   -> StringAspects(ev, R)
    [] ev.o = "Format"   -> FormatAspects(ev, R)
    [] ev.o = "SetString"-> SetStringAspects(ev, R, N)
    [] ev.o = "Decompose"-> DecomposeAspects(ev, R)
    [] ev.o = "Compose"  -> ComposeAspects(ev, R, N)
    [] ev.o = "PgValue"  -> PgValueAspects(ev, R)
    [] ev.o \in {"PgScan", "PgNew"} -> PgScanAspects(ev, R, N)
    [] OTHER -> {"unknown"}

Receivers(ev) ==
  IF ev.o \in {"Preds", "Cmp", "MaxMin", "Err", "Names", "Same", "Int", "Rat", "Float64", "Float", "String",
               "Format", "Decompose", "PgValue"} THEN {}
  ELSE IF ev.o = "QuoRem" THEN {ev.z, ev.u} ELSE {ev.z}

Operands(ev) == {i \in {ev.x, ev.y, ev.u} \cup (IF ev.o \in InPlaceOps THEN {ev.z} ELSE {}) : i # 0}

Judge(ev, R, N) ==
  LET rec == Receivers(ev)
      far == ev.o \notin AssignOps \cup {"Cmp", "Preds", "MaxMin"} /\ \E i \in Operands(ev) : FarVal(R[i])
  IN (IF ev.pn = 3 THEN {"hang"} ELSE IF ev.pn = 2 THEN {"panic"}
      ELSE IF far THEN FlagIf(ev.pn # 0 /\ \A i \in rec : R[i].M = 0, "panic")
      ELSE OpAspects(ev, R, N))
     \cup FlagIf(\E i \in (1..NReg) \ rec : ~SameReg(R[i], N[i]), "frame")
     \cup FlagIf(ev.pn = 0 /\ \E i \in rec : ~RepOK(N[i]), "rep")
     \* whatever it gives, an operation leaves the Context, and the conditions that were raised before
     \cup FlagIf(ev.pn = 0 /\ ev.o \notin AssignOps \cup {"PgNew"} /\ \E i \in rec : ~SameCtx(R[i], N[i]), "ctx")
     \cup FlagIf(ev.pn = 0 /\ ev.o \notin AssignOps \cup {"PgNew"}
                 /\ \E i \in rec : R[i].M = 0 /\ ~(Conds(R[i].q) \subseteq Conds(N[i].q)), "lost")
     \cup FlagIf(ev.ar # 0, "args")

\* What an event is about, to attribute differences
Tags(ev, R) ==
  LET ops == Operands(ev)
      cx == IF ev.z # 0 THEN CtxIn(ev, R) ELSE DefCtx
  IN FlagIf(\E i \in ops : R[i].k >= 2, "nan") \cup FlagIf(\E i \in ops : R[i].k = 1, "inf")
     \cup FlagIf(\E i \in ops : R[i].k = 0 /\ R[i].c = BZero, "zero")
     \cup FlagIf(ev.z # 0 /\ ~cx.ok, "badctx") \cup FlagIf(ev.z # 0 /\ cx.m = 1, "go")
     \cup FlagIf(ev.z \in ops \/ (ev.x # 0 /\ (ev.x = ev.y \/ ev.x = ev.u)), "alias")
     \cup FlagIf(ev.z # 0 /\ cx.unl, "unl")
     \cup FlagIf(ev.z # 0 /\ (cx.lo > -Far \/ cx.hi < Far), "range")
     \cup FlagIf(ev.cx # <<>>, "ctxm")
=============================================================================
