----------------------------- MODULE BigIntDef ------------------------------
(* Definitions of the operators of BigInt.tla in terms of limbs. *)
EXTENDS Integers, Sequences

B == 10000

AbsI(i) == IF i < 0 THEN -i ELSE i
SgnI(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0

RECURSIVE LimbsOf(_)
LimbsOf(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o LimbsOf(i \div B)

Mag(a)    == Tail(a)
Limb(m,i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE Trim(_)
Trim(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m)-1)) ELSE m

\* The number with sign s and magnitude m
Mk(s, m) == LET t == Trim(m) IN IF t = <<>> THEN <<0>> ELSE <<s>> \o t

BI(i)   == Mk(SgnI(i), LimbsOf(AbsI(i)))
RECURSIVE MagInt(_)
MagInt(m) == IF m = <<>> THEN 0 ELSE m[1] + B * MagInt(Tail(m))
BInt(a) == a[1] * MagInt(Mag(a))
BSgn(a) == a[1]
BNeg(a) == <<-a[1]>> \o Mag(a)
BAbs(a) == <<AbsI(a[1])>> \o Mag(a)

RECURSIVE MCmpAt(_, _, _)
MCmpAt(m, n, i) == IF i = 0 THEN 0
                   ELSE IF Limb(m,i) # Limb(n,i) THEN SgnI(Limb(m,i) - Limb(n,i))
                   ELSE MCmpAt(m, n, i-1)
MCmp(m, n) == MCmpAt(m, n, IF Len(m) > Len(n) THEN Len(m) ELSE Len(n))

RECURSIVE MAddC(_, _, _, _)
MAddC(m, n, i, c) == IF i > Len(m) /\ i > Len(n) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET s == Limb(m,i) + Limb(n,i) + c
                          IN <<s % B>> \o MAddC(m, n, i+1, s \div B)
MAdd(m, n) == MAddC(m, n, 1, 0)
\* m >= n
RECURSIVE MSubC(_, _, _, _)
MSubC(m, n, i, c) == IF i > Len(m) THEN <<>>
                     ELSE LET s == Limb(m,i) - Limb(n,i) - c
                          IN <<s % B>> \o MSubC(m, n, i+1, IF s < 0 THEN 1 ELSE 0)
MSub(m, n) == Trim(MSubC(m, n, 1, 0))

RECURSIVE MScale(_, _, _, _)
MScale(m, d, i, c) == IF i > Len(m) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                      ELSE LET s == m[i] * d + c
                           IN <<s % B>> \o MScale(m, d, i+1, s \div B)
RECURSIVE MMul(_, _)
MMul(m, n) == IF n = <<>> THEN <<>>
              ELSE MAdd(MScale(m, n[1], 1, 0), <<0>> \o MMul(m, Tail(n)))

BCmp(a, b) == IF a[1] # b[1] THEN SgnI(a[1] - b[1]) ELSE a[1] * MCmp(Mag(a), Mag(b))
BAdd(a, b) == IF a[1] = 0 THEN b
              ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
              ELSE IF MCmp(Mag(a), Mag(b)) >= 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
              ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))

\* decimal digits, most significant first
LimbDigits(l) == <<l \div 1000, (l \div 100) % 10, (l \div 10) % 10, l % 10>>
RECURSIVE MDigits(_)
MDigits(m) == IF m = <<>> THEN <<>> ELSE MDigits(Tail(m)) \o LimbDigits(m[1])
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
Digits(a) == IF a[1] = 0 THEN <<0>> ELSE Strip(MDigits(Mag(a)))
BDigits(a) == Len(Digits(a))
BDec(a) == LET d == Digits(a) IN [i \in 1..Len(d) |-> d[i] + 48]
RECURSIVE FromDigits(_)
FromDigits(d) == IF d = <<>> THEN <<0>>
                 ELSE BAdd(BMul(FromDigits(SubSeq(d, 1, Len(d)-1)), BI(10)), BI(d[Len(d)]))
BParse(s) == FromDigits([i \in 1..Len(s) |-> s[i] - 48])

\* long division of the digits d[i..] given the remainder r so far: <<quotient digits, remainder>>
RECURSIVE SubCount(_, _)
SubCount(r, n) == IF MCmp(r, n) < 0 THEN <<0, r>>
                  ELSE LET s == SubCount(MSub(r, n), n) IN <<s[1] + 1, s[2]>>
RECURSIVE LongDiv(_, _, _, _)
LongDiv(d, i, r, n) ==
   IF i > Len(d) THEN <<<<>>, r>>
   ELSE LET r1 == Trim(MAdd(MScale(r, 10, 1, 0), <<d[i]>>))
            s  == SubCount(r1, n)
            t  == LongDiv(d, i+1, s[2], n)
        IN <<<<s[1]>> \o t[1], t[2]>>
MDiv(a, b) == LongDiv(Digits(a), 1, <<>>, Mag(b))
BQuo(a, b) == LET q == FromDigits(MDiv(a, b)[1]) IN IF q = <<0>> THEN q ELSE Mk(a[1]*b[1], Mag(q))
BRem(a, b) == Mk(a[1], MDiv(a, b)[2])
BFloor(a, b) == LET q == BQuo(a, b) IN IF BRem(a, b)[1] < 0 THEN BSub(q, BI(1)) ELSE q

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE BMul(a, BPow(a, n-1))
BPow10(n)   == BPow(BI(10), n)
BShift(a,n) == IF a = <<0>> THEN a ELSE BMul(a, BPow10(n))
BDrop(a, n) == BQuo(a, BPow10(n))
BTrail(a)   == CHOOSE n \in 0..BDigits(a) : BRem(a, BPow10(n)) = <<0>> /\ BRem(a, BPow10(n+1)) # <<0>>
BOdd(a)     == a[1] # 0 /\ a[2] % 2 = 1
\* floor of the square root, by bisection in [lo, hi)
RECURSIVE Bisect(_, _, _)
Bisect(a, lo, hi) == IF BSub(hi, lo) = <<1, 1>> THEN lo
                     ELSE LET m == BQuo(BAdd(lo, hi), BI(2))
                          IN IF BCmp(BMul(m, m), a) <= 0 THEN Bisect(a, m, hi) ELSE Bisect(a, lo, m)
BSqrt(a) == Bisect(a, <<0>>, BAdd(a, BI(1)))
RECURSIVE BBits(_)
BBits(a) == IF a[1] = 0 THEN 0 ELSE 1 + BBits(BQuo(a, BI(2)))
=============================================================================
