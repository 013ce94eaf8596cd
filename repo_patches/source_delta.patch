From 1be8cb1244f9aa06e7c64523d5ea8b8bac246853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 01/61] fix: do not range check the stale exponent of
 infinities and NaNs

Negating or copying an infinity or NaN that was stored in a decimal
whose previous value had an out of range exponent turned it into an
infinity or a zero and raised spurious conditions.
---
 util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util.go b/util.go
index 0b78071..326354c 100644
--- a/util.go
+++ b/util.go
@@ -26,6 +26,11 @@ func (z *Big) norm() *Big {
 
 // fix check for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
+	// The exponent of a special value is meaningless.
+	if z.isSpecial() {
+		return z
+	}
+
 	adj := z.adjusted()
 
 	if adj > c.emax() {
-- 
2.43.0


From 1d15a9116c52e7103c0ffc6d36c5998279960284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 02/61] fix: return the overflow result that the rounding mode
 calls for

Directed rounding modes left the coefficient of an overflowing value as
it was (ToZero, ToNegativeInf, ToPositiveInf), left the value out of
range (AwayFromZero) or returned +Inf for a negative value
(ToNegativeInf).
---
 util.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/util.go b/util.go
index 326354c..b12dce9 100644
--- a/util.go
+++ b/util.go
@@ -34,30 +34,13 @@ func (c Context) fix(z *Big) *Big {
 	adj := z.adjusted()
 
 	if adj > c.emax() {
-		prec := c.precision()
-
 		if z.isZero() {
 			z.exp = c.emax()
 			z.Context.Conditions |= Clamped
 			return z
 		}
 
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
-		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
-			}
-		}
-		z.Context.Conditions |= Overflow | Inexact | Rounded
-		return z
+		return c.overflow(z)
 	}
 
 	if adj < c.emin() {
@@ -86,6 +69,33 @@ func (c Context) fix(z *Big) *Big {
 	return z
 }
 
+// overflow sets z, which is finite and too large for the Context,
+// to either an infinity or the largest finite number, depending
+// on the RoundingMode.
+func (c Context) overflow(z *Big) *Big {
+	neg := z.Signbit()
+	toInf := true
+	switch c.RoundingMode {
+	case ToZero:
+		toInf = false
+	case ToPositiveInf:
+		toInf = !neg
+	case ToNegativeInf:
+		toInf = neg
+	}
+	// There isn't a largest finite number if the precision is
+	// unlimited.
+	if toInf || c.precision() == UnlimitedPrecision {
+		z.SetInf(neg)
+	} else {
+		maxfor(&z.unscaled, c.precision(), +1)
+		z.norm()
+		z.exp = c.etop()
+	}
+	z.Context.Conditions |= Overflow | Inexact | Rounded
+	return z
+}
+
 // alias returns z if z != x, otherwise a newly-allocated big.Int.
 func alias(z, x *big.Int) *big.Int {
 	if z != x {
-- 
2.43.0


From 684bb65c25084d2dc319772d87a65f7616e4e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 03/61] fix: detect an overflow that is caused by rounding

9.99E+96 rounded up to two digits became 1.0E+97 even if MaxScale is 96.
---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..91e1390 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2812,6 +2812,10 @@ func (c Context) round(z *Big) *Big {
 	c.shiftr(z, uint64(shift))
 	z.exp += shift
 	z.Context.Conditions |= Rounded
+	// Rounding up might have pushed z out of range.
+	if z.adjusted() > c.emax() && !z.isZero() {
+		return c.overflow(z)
+	}
 	return z
 }
 
-- 
2.43.0


From 0db97fb2ae858c8b879ca9e9a58c880bfbced0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 04/61] fix: round subnormal results correctly

Results below MinScale ignored the RoundingMode if all of their digits
were shifted out, were replaced with 1 if the shift was exact, got the
wrong exponent if rounding carried into a new digit, and raised
Underflow, but not Rounded and Inexact, regardless of whether they were
inexact.
---
 big_ctx.go | 34 +++++++++++++++++++++++++++++-----
 util.go    | 15 +++++++++++----
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 91e1390..bf63574 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2845,17 +2845,26 @@ func (c Context) shiftl(z *Big, n uint64) {
 }
 
 func (c Context) shiftr(z *Big, n uint64) bool {
+	if z.isZero() {
+		return true
+	}
+
+	m := c.RoundingMode
 	if zp := uint64(z.Precision()); n >= zp {
+		// 0 < z / 10**n < 1
+		z.Context.Conditions |= Inexact | Rounded
+		rc := -1
+		if n == zp {
+			rc = cmpHalf(z)
+		}
 		z.compact = 0
 		z.precision = 1
-		return n == zp
-	}
-
-	if z.isZero() {
+		if m.needsInc(false, rc, z.form&signbit == 0) {
+			z.compact = 1
+		}
 		return false
 	}
 
-	m := c.RoundingMode
 	if z.isCompact() {
 		if y, ok := arith.Pow10(n); ok {
 			return z.quo(m, z.compact, z.form, y, 0)
@@ -2867,6 +2876,21 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 	return z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
 }
 
+// cmpHalf compares x's coefficient with 0.5 * 10**x.Precision().
+func cmpHalf(x *Big) int {
+	if x.isCompact() {
+		// 0.5 * 10**20 does not fit in a uint64 but is larger than any
+		// uint64.
+		p, ok := arith.Pow10(uint64(x.Precision() - 1))
+		if hi, half := bits.Mul64(p, 5); ok && hi == 0 {
+			return arith.Cmp(x.compact, half)
+		}
+		return -1
+	}
+	half := new(big.Int).Mul(arith.BigPow10(uint64(x.Precision()-1)), cst.FiveInt)
+	return x.unscaled.Cmp(half)
+}
+
 // Sqrt sets z to the square root of x and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
 	if z.CheckNaNs(x, nil) {
diff --git a/util.go b/util.go
index b12dce9..7644252 100644
--- a/util.go
+++ b/util.go
@@ -56,11 +56,18 @@ func (c Context) fix(z *Big) *Big {
 
 		z.Context.Conditions |= Subnormal
 		if z.exp < tiny {
-			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
+			shift := tiny - z.exp
+			exact := c.shiftr(z, uint64(shift))
+			z.exp += shift
+			if z.exp > tiny {
+				// Rounding up carried into a new digit.
+				c.shiftl(z, uint64(z.exp-tiny))
+				z.exp = tiny
+			}
+			z.Context.Conditions |= Rounded
+			if !exact {
+				z.Context.Conditions |= Underflow
 			}
-			z.exp = tiny
-			z.Context.Conditions |= Underflow
 			if z.isZero() {
 				z.Context.Conditions |= Clamped
 			}
-- 
2.43.0


From fd0d5700708263cdfd4345f54b785053b13727f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 05/61] fix: round, range check and scale quotients correctly

Quo neither checked for overflow, underflow and subnormal results nor
raised Rounded when it discarded zeros, and it removed trailing zeros
past the preferred exponent (6.50 / 5 was 1.3 instead of 1.30).
---
 big_ctx.go | 64 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index bf63574..0709887 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2245,13 +2245,15 @@ func (c Context) Quo(z, x, y *Big) *Big {
 
 	var (
 		ideal = x.exp - y.exp // preferred exponent.
-		m     = c.RoundingMode
+		m     = ToZero        // finishQuo applies c.RoundingMode.
 		yp    = y.Precision() // stored since we might decrement it.
 		zp    = c.precision() // stored because of overhead.
 	)
 	if zp == UnlimitedPrecision {
 		m = unnecessary
 		zp = x.Precision() + int(math.Ceil(10*float64(yp)/3))
+	} else {
+		zp++ // finishQuo requires a guard digit.
 	}
 
 	if x.isCompact() && y.isCompact() {
@@ -2261,43 +2263,27 @@ func (c Context) Quo(z, x, y *Big) *Big {
 
 		shift := zp + yp - x.Precision()
 		z.exp = (x.exp - y.exp) - shift
-		expadj := ideal - z.exp
 		if shift > 0 {
 			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
-				if z.quo(m, sx, x.form, y.compact, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
+				return c.finishQuo(z, z.quo(m, sx, x.form, y.compact, y.form), ideal)
 			}
 			xb := z.unscaled.SetUint64(x.compact)
 			xb = arith.MulBigPow10(xb, xb, uint64(shift))
 			yb := new(big.Int).SetUint64(y.compact)
 			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
+			return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, rb), ideal)
 		}
 		if shift < 0 {
 			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
-				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
+				return c.finishQuo(z, z.quo(m, x.compact, x.form, sy, y.form), ideal)
 			}
 			yb := z.unscaled.SetUint64(y.compact)
 			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
 			xb := new(big.Int).SetUint64(x.compact)
 			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
-		}
-		if z.quo(m, x.compact, x.form, y.compact, y.form) && expadj > 0 {
-			c.simpleReduce(z)
+			return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, rb), ideal)
 		}
-		return z
+		return c.finishQuo(z, z.quo(m, x.compact, x.form, y.compact, y.form), ideal)
 	}
 
 	xb, yb := &x.unscaled, &y.unscaled
@@ -2325,11 +2311,37 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		tmp = new(big.Int)
 	}
 
-	expadj := ideal - z.exp
-	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
-		c.simpleReduce(z)
+	return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)), ideal)
+}
+
+// finishQuo finishes the division of two finite, non-zero
+// decimals.
+//
+// z must be set to the quotient, truncated to at least one more
+// digit than the Context's precision, and exact must report
+// whether the quotient is exact.
+func (c Context) finishQuo(z *Big, exact bool, ideal int) *Big {
+	if z.isSpecial() {
+		return z
 	}
-	return z
+	if exact {
+		// Get as close as possible to the preferred exponent.
+		if z.exp < ideal {
+			if c.simpleReduce(z); z.exp > ideal {
+				c.shiftl(z, uint64(z.exp-ideal))
+				z.exp = ideal
+			}
+		}
+	} else if z.isCompact() {
+		// The discarded digits must affect rounding if the quotient
+		// looks like it's exact or halfway.
+		if z.compact%5 == 0 {
+			z.compact++
+		}
+	} else if new(big.Int).Rem(&z.unscaled, cst.FiveInt).Sign() == 0 {
+		arith.Add(&z.unscaled, &z.unscaled, 1)
+	}
+	return c.round(c.fix(z))
 }
 
 func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool {
-- 
2.43.0


From 33e84f97ac39a443ec486a23e341e2372eb32415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 06/61] fix: correctly round square roots

The square root was rounded twice, the second time using the Context's
RoundingMode, so it could be off by one unit in the last place. It also
lost trailing zeros required by the preferred exponent, the sign of a
negative zero if z and x were the same decimal, and the Inexact and
Rounded conditions if the rounded result had few digits.
---
 big_ctx.go | 89 +++++++++++++++---------------------------------------
 const.go   |  4 ---
 2 files changed, 25 insertions(+), 68 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 0709887..9a2b353 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2909,10 +2909,11 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		return z
 	}
 
-	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
+	// floor(x.exp / 2)
+	ideal := (x.exp - (x.exp & 1)) / 2
 	if xs := x.Sign(); xs <= 0 {
 		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
+			return c.fix(z.setZero(x.form&signbit, ideal))
 		}
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
@@ -2923,73 +2924,33 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		return z.SetInf(false)
 	}
 
-	var (
-		prec = c.precision()
-		ctx  = Context{Precision: prec}
-		rnd  = z.Context.Conditions&Rounded != 0
-		ixt  = z.Context.Conditions&Inexact != 0
-	)
-
-	// Source for the following algorithm:
-	//
-	//  T. E. Hull and A. Abrham. 1985. Properly rounded variable
-	//  precision square root. ACM Trans. Math. Softw. 11,
-	//  3 (September 1985), 229-237.
-	//  DOI: https://doi.org/10.1145/214408.214413
-
-	xprec := x.Precision()
-
-	// The algorithm requires a normalized "f in [0.1, 1)"
-	// Of the two ways to normalize f, adjusting its scale is
-	// the quickest. However, it then requires us to
-	// increment approx's scale by e/2 instead of simply
-	// setting it to e/2.
-	f := new(Big).Copy(x)
-	f.exp = -xprec
-	e := x.exp + xprec
-
-	var tmp Big // scratch space
-
-	if e&1 == 0 {
-		ctx.FMA(z, approx2.get(), f, approx1.get()) // approx := .259 + .819f
+	// x = xb * 10**e where e is even and xb is large enough for
+	// its root to have at least one more digit than the Context's
+	// precision.
+	xb := new(big.Int)
+	if x.isCompact() {
+		xb.SetUint64(x.compact)
 	} else {
-		f.exp--                                     // f := f/10
-		e++                                         // e := e + 1
-		ctx.FMA(z, approx4.get(), f, approx3.get()) // approx := .0819 + 2.59f
+		xb.Set(&x.unscaled)
 	}
-
-	maxp := prec + 5 // extra prec to skip weird +/- 0.5 adjustments
-	ctx.Precision = 3
-	pt5 := ptFive.get()
-	for {
-		// p := min(2*p - 2, maxp)
-		ctx.Precision = min(2*ctx.Precision-2, maxp)
-
-		// approx := .5*(approx + f/approx)
-		ctx.Mul(z, pt5, ctx.Add(&tmp, z, ctx.Quo(&tmp, f, z)))
-		if ctx.Precision == maxp {
-			break
-		}
+	e := 2 * ideal
+	shift := x.exp - e
+	if d := c.precision() + 1 - (x.Precision()+shift+1)/2; d > 0 {
+		shift += 2 * d
+		e -= 2 * d
 	}
+	xb = arith.MulBigPow10(xb, xb, uint64(shift))
 
-	// The paper also specifies an additional code block for
-	// adjusting approx.  This code never went into the branches
-	// that modified approx, and rounding to half even does the
-	// same thing. The GDA spec requires us to use rounding mode
-	// half even (speleotrove.com/decimal/daops.html#refsqrt)
-	// anyway.
+	root := z.unscaled.Sqrt(xb)
+	exact := new(big.Int).Mul(root, root).Cmp(xb) == 0
+	z.form = finite
+	z.exp = e / 2
+	z.norm()
 
-	z.exp += e / 2
-	ctx.Reduce(z)
-	if z.Precision() <= prec {
-		if !rnd {
-			z.Context.Conditions &= ^Rounded
-		}
-		if !ixt {
-			z.Context.Conditions &= ^Inexact
-		}
-	}
-	return c.finish(z)
+	// The GDA spec requires us to use rounding mode half even.
+	// See speleotrove.com/decimal/daops.html#refsqrt
+	c.RoundingMode = ToNearestEven
+	return c.finishQuo(z, exact, ideal)
 }
 
 // sqrt3 sets z to sqrt(3) and returns z.
diff --git a/const.go b/const.go
index 5c39b55..8ccc838 100644
--- a/const.go
+++ b/const.go
@@ -35,10 +35,6 @@ var (
 	_Pi2   = newLazyDecimal("1.57079632679489661923132169163975144209858469968755291048747229615390820314310449931401741267105853399107404325664115332354692230477529111586267970406424055872514205135096926055277982231147447746519098221440548783296672306423782411689339158263560095457282428346173017430522716332410669680363012457064")
 	_Sqrt3 = newLazyDecimal("1.73205080756887729352744634150587236694280525381038062805580697945193301690880003708114618675724857567562614141540670302996994509499895247881165551209437364852809323190230558206797482010108467492326501531234326690332288665067225466892183797122704713166036786158801904998653737985938946765034750657605")
 
-	approx1 = newLazyDecimal("0.259")
-	approx2 = newLazyDecimal("0.819")
-	approx3 = newLazyDecimal("0.0819")
-	approx4 = newLazyDecimal("2.59")
 	ptFive  = newLazyDecimal("0.5")
 
 	_10005             = newLazyDecimal("10005")
-- 
2.43.0


From c85d0e5042522af2c9460185e19c957ae5c239e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 07/61] fix: evaluate the arctangent series with the guard
 digits

The series and pi were evaluated with the precision of the result, so
the result could be off by more than one unit in the last place.
---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 9a2b353..a415848 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -444,7 +444,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
@@ -462,7 +462,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	// set 2: 1 < value               // then result = pi/2 - result
 	switch segment {
 	case 1:
-		piOver6 := c.pi(tmp) // clobber _2p
+		piOver6 := ctx.pi(tmp) // clobber _2p
 		ctx.Quo(piOver6, piOver6, six.get())
 		ctx.Add(z, piOver6, z)
 	case 2:
-- 
2.43.0


From a90481a5bd8f68f7b27fbc82e4eae0340b64c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 08/61] fix: keep the requested exponent and range when
 quantizing

Quantize returned a result with an exponent other than the requested one
if rounding carried into a new digit (9.5 quantized to an integer was
1E+1), without checking whether the wider result fits the precision, and
accepted results larger than MaxScale.
---
 big_ctx.go | 52 ++++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index a415848..7b31d54 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2162,39 +2162,28 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		return z.setNaN(InvalidOperation, qnan, quantprec)
 	}
 
+	conds := z.Context.Conditions
 	z.exp = n
-	if shift == 0 {
-		return z
-	}
-
 	if shift < 0 {
 		z.Context.Conditions |= Rounded
-	}
-
-	m := c.RoundingMode
-	neg := z.form & signbit
-	if z.isCompact() {
-		if shift > 0 {
-			if zc, ok := arith.MulPow10(z.compact, uint64(shift)); ok {
-				return z.setTriple(zc, neg, n)
-			}
-			// shift < 0
-		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
-			z.quo(m, z.compact, neg, yc, 0)
-			return z
+		c.shiftr(z, uint64(-shift))
+		if z.exp > n {
+			// Rounding up carried into a new digit.
+			c.shiftl(z, uint64(z.exp-n))
+			z.exp = n
 		}
-		z.unscaled.SetUint64(z.compact)
-		z.compact = cst.Inflated
+	} else if shift > 0 {
+		c.shiftl(z, uint64(shift))
 	}
-
-	if shift > 0 {
-		arith.MulBigPow10(&z.unscaled, &z.unscaled, uint64(shift))
-		z.precision = arith.BigLength(&z.unscaled)
-	} else {
-		var r big.Int
-		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
+	if z.Precision() > c.precision() {
+		z.Context.Conditions = conds
+		return z.setNaN(InvalidOperation, qnan, quantprec)
 	}
-	return z
+	if z.adjusted() > c.emax() {
+		z.Context.Conditions = conds
+		return z.setNaN(InvalidOperation, qnan, quantminmax)
+	}
+	return c.fix(z)
 }
 
 // Quo sets z to x / y and returns z.
@@ -2833,10 +2822,17 @@ func (c Context) round(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
-	if z.isSpecial() || z.exp >= 0 {
+	if z.isSpecial() {
+		z.checkNaNs(z, z, quantization)
+		return z
+	}
+	if z.exp >= 0 {
 		return z
 	}
+	// The result is as wide as it has to be.
 	c.Precision = z.Precision()
+	c.MaxScale = 0
+	c.MinScale = 0
 	return c.Quantize(z, 0)
 }
 
-- 
2.43.0


From 01eb3f40e3f8b9fa7803a60d250ca21d136df301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 09/61] fix: range check integer quotients

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7b31d54..4344ab7 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2461,7 +2461,7 @@ func (c Context) QuoInt(z, x, y *Big) *Big {
 		if z.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
 		}
-		return z
+		return c.fix(z)
 	}
 
 	// NaN / NaN
-- 
2.43.0


From 48379c1588784156646ebf4c235cddbb828ea402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 10/61] fix: remainder with an aliased receiver or a zero
 dividend

z.Rem(z, y) and z.Rem(x, z) read the exponent of the operand after it
had been overwritten: 7.5 %% 2 was 15. A zero remainder was not clamped.
---
 big_ctx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 4344ab7..b213163 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2740,13 +2740,14 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		}
 		if x.isZero() {
 			// 0 / y
-			return z.setZero(x.form&signbit, min(x.exp, y.exp))
+			return c.fix(z.setZero(x.form&signbit, min(x.exp, y.exp)))
 		}
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
+		exp := min(x.exp, y.exp) // in case z == x or z == y
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
+		z.exp = exp
 		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
-- 
2.43.0


From ecff5fbb9d9d0459fdfac3226d055823d2957ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 11/61] fix: set the exponents of QuoRem's results

QuoRem did not scale the remainder (7.5 / 2 left 15), did not scale the
quotient if the coefficients did not fit into 64 bits, returned infinities
for 0 / 0, and returned a remainder of 0 for x / Inf, so x = z*y + r did
not hold.
---
 big_ctx.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b213163..ea07e45 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2502,19 +2502,35 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
+			neg := x.Signbit() // in case z == x
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			return z.SetInf(sign != 0), r.SetInf(neg)
 		}
+		// In case z or r are also x or y.
+		xsign := x.form & signbit
+		exp := min(x.exp, y.exp)
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			z.setZero(sign, 0)
+			r.setZero(xsign, exp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		c.quorem(z, r, x, y)
+		if z.isSpecial() {
+			return z, r
+		}
+		z.exp = 0
+		r.exp = exp
+		if z.Precision() > c.precision() {
+			z.setNaN(DivisionImpossible, qnan, quointprec)
+			r.setNaN(DivisionImpossible, qnan, quointprec)
+			return z, r
+		}
+		return c.fix(z), c.finish(r)
 	}
 
 	// NaN / NaN
@@ -2531,12 +2547,13 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		neg := x.Signbit() // in case z == x
+		return z.SetInf(sign != 0), r.SetInf(neg)
 	}
 	// x / ±Inf
+	c.Set(r, x)
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
 	return z, r
 }
 
-- 
2.43.0


From a63bd4bc28108b0b5fe8060a3ad00f3a53917f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 12/61] fix: step from x itself in NextPlus and NextMinus

z.NextPlus(z) and z.NextMinus(z) rounded z before stepping, operands
with digits below the smallest subnormal could be stepped too far, and
conditions that had been raised earlier were dropped.
---
 big_ctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index ea07e45..1755c11 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1795,9 +1795,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
-	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	conds := z.Context.Conditions
+	c.Sub(z, x, new(Big).SetMantScale(1, -min(x.exp, c.etiny())+1))
+	z.Context.Conditions = conds
 	return z
 }
 
@@ -1825,9 +1825,9 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
-	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	conds := z.Context.Conditions
+	c.Add(z, x, new(Big).SetMantScale(1, -min(x.exp, c.etiny())+1))
+	z.Context.Conditions = conds
 	return z
 }
 
-- 
2.43.0


From 7799561b6077cac15a2a8be8c12bea187331f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 13/61] fix: FMA depended on, or lost, conditions

FMA skipped the addition if InvalidOperation had been raised by any
earlier operation, and did not raise conditions if z and u were the same
decimal.
---
 big_ctx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1755c11..d1378f6 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1183,13 +1183,16 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	// z.FMA(x, y, z) without clobbering z partway through.
 	z0 := z
 	if z == u {
-		z0 = WithContext(c)
+		z0 = WithContext(z.Context)
 	}
+	// Only stop if it's this multiplication that's invalid.
+	conds := z.Context.Conditions
+	z0.Context.Conditions = 0
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	if z0.Context.Conditions&InvalidOperation == 0 {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
+	z.Context.Conditions = conds | z0.Context.Conditions
 	return z.setShared(z0)
 }
 
-- 
2.43.0


From 442d31d469e15ce3d42f211140c20aef4ba7bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 14/61] fix: use the given Context to subtract an infinity

x - Inf used the receiver's Context, so it failed if that Context was
invalid.
---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index d1378f6..dbda2ea 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3084,7 +3084,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return z.SetInf(!y.Signbit())
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From 8ff496a81e0064693061ccc2fd7449fd8867b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 15/61] fix: CmpTotal ignored exponents, signs of zeros and
 payloads

The order is the one of the GDA specification's compare-total, which the
documentation listed incorrectly for negative numbers.
---
 big.go       | 50 ++++++++++++++++++++++++++++++++------------------
 misc/misc.go |  4 ++--
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..3dd2bf0 100644
--- a/big.go
+++ b/big.go
@@ -563,10 +563,10 @@ func cmpabs(x, y *Big) int {
 //    -sNaN
 //    -Infinity
 //    -127
-//    -1.00
 //    -1
-//    -0.000
+//    -1.00
 //    -0
+//    -0.000
 //    +0
 //    +1.2300
 //    +1.23
@@ -580,18 +580,7 @@ func (x *Big) CmpTotal(y *Big) int {
 		x.validate()
 		y.validate()
 	}
-	xs := x.ordTotal(false)
-	ys := y.ordTotal(false)
-	if xs != ys {
-		if xs > ys {
-			return +1
-		}
-		return -1
-	}
-	if xs != 0 {
-		return 0
-	}
-	return x.Cmp(y)
+	return cmpTotal(x, y, false)
 }
 
 // CmpTotalAbs is like CmpTotal but instead compares the absolute
@@ -601,18 +590,43 @@ func (x *Big) CmpTotalAbs(y *Big) int {
 		x.validate()
 		y.validate()
 	}
-	xs := x.ordTotal(true)
-	ys := y.ordTotal(true)
+	return cmpTotal(x, y, true)
+}
+
+// cmpTotal is the implementation for both CmpTotal and
+// CmpTotalAbs.
+func cmpTotal(x, y *Big, abs bool) int {
+	xs := x.ordTotal(abs)
+	ys := y.ordTotal(abs)
 	if xs != ys {
 		if xs > ys {
 			return +1
 		}
 		return -1
 	}
+
+	neg := !abs && x.form&signbit != 0
+	if !abs && (x.form^y.form)&signbit != 0 {
+		if neg {
+			return -1
+		}
+		return +1
+	}
+
+	// x and y have, or are treated as if they have, the same sign.
+	var r int
 	if xs != 0 {
-		return 0
+		r = arith.Cmp(x.compact, y.compact) // payloads
+	} else {
+		if r := cmp(x, y, abs); r != 0 || !x.IsFinite() {
+			return r
+		}
+		r = arith.Cmp(uint64(int64(x.exp))^(1<<63), uint64(int64(y.exp))^(1<<63))
 	}
-	return x.CmpAbs(y)
+	if neg {
+		r = -r
+	}
+	return r
 }
 
 func (x *Big) ordTotal(abs bool) (r int) {
diff --git a/misc/misc.go b/misc/misc.go
index 4a94454..de02225 100644
--- a/misc/misc.go
+++ b/misc/misc.go
@@ -31,10 +31,10 @@ func Canonical(z, x *decimal.Big) *decimal.Big {
 //    -sNaN
 //    -Infinity
 //    -127
-//    -1.00
 //    -1
-//    -0.000
+//    -1.00
 //    -0
+//    -0.000
 //    +0
 //    +1.2300
 //    +1.23
-- 
2.43.0


From 6dac2f731edc094da6ed0a6b756736b86ed62f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 16/61] fix: Pow of zeros and infinities, aliased receivers and
 stale conditions

---
 big_ctx.go | 112 +++++++++++++++++++++++------------------------------
 1 file changed, 49 insertions(+), 63 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index dbda2ea..b359fef 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1014,7 +1014,7 @@ func (c Context) expSmall(z *Big, t int) *Big {
 		c.FMA(&sum, &sum, &tmp, one.get()) // sum = sum*(r/i) + 1
 	}
 	w, _ := arith.Pow10(uint64(t)) // t in [0, 19]
-	return c.powUint64(z, &sum, w)
+	return c.powBig(z, &sum, new(big.Int).SetUint64(w))
 }
 
 // expLarge returns exp(z) using continued fractions.
@@ -1041,7 +1041,7 @@ func (c Context) expLarge(z *Big, t int) *Big {
 
 	if t != 0 {
 		w, _ := arith.Pow10(uint64(t)) // t <= 19
-		c.powUint64(z, z, w)
+		c.powBig(z, z, new(big.Int).SetUint64(w))
 	}
 	return z
 }
@@ -1988,12 +1988,13 @@ func (c Context) Pow(z, x, y *Big) *Big {
 				z.Context.Conditions |= InvalidOperation
 				return z.SetNaN(false)
 			}
+			sign := x.Signbit() && y.isOdd()
 			if y.Signbit() {
-				// 0 ** -y = +Inf
-				return z.SetInf(true)
+				// ±0 ** -y = ±Inf if y is odd, otherwise +Inf
+				return z.SetInf(sign)
 			}
-			// 0 ** y = 0
-			return z.SetUint64(0)
+			// ±0 ** y = ±0 if y is odd, otherwise +0
+			return z.SetUint64(0).SetSignbit(sign)
 		}
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
@@ -2004,13 +2005,14 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	}
 
 	if x.IsInf(0) {
+		sign := x.Signbit() && y.isOdd()
 		switch y.Sign() {
 		case +1:
-			// ±Inf ** y = +Inf
-			return z.SetInf(false)
+			// ±Inf ** y = ±Inf if y is odd, otherwise +Inf
+			return z.SetInf(sign)
 		case -1:
-			// ±Inf ** -y = 0
-			return z.SetUint64(0)
+			// ±Inf ** -y = ±0 if y is odd, otherwise +0
+			return z.SetUint64(0).SetSignbit(sign)
 		case 0:
 			// ±Inf ** 0 = 1
 			return z.SetUint64(1)
@@ -2022,6 +2024,18 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	if y.IsInf(0) {
+		switch r := x.Cmp(one.get()); {
+		case r == 0:
+			// 1 ** ±Inf = 1
+			return z.SetUint64(1)
+		case (r > 0) == y.IsInf(+1):
+			return z.SetInf(false)
+		default:
+			return z.SetUint64(0)
+		}
+	}
+
 	if y.Cmp(ptFive.get()) == 0 {
 		// x ** 0.5 = sqrt(x)
 		return c.Sqrt(z, x)
@@ -2035,78 +2049,50 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	return c.finish(z)
 }
 
+// isOdd reports whether x is an odd integer.
+func (x *Big) isOdd() bool {
+	return x.exp <= 0 && x.IsInt() && x.Int(nil).Bit(0) == 1
+}
+
 // powInt sets z = x**y for the integer y.
 func (c Context) powInt(z, x, y *Big) *Big {
 	ctx := Context{
-		Precision: c.precision() + y.Precision() - y.Scale() + 2,
+		Precision: c.precision(),
 	}
-
-	if yy, ok := y.Uint64(); ok {
-		return ctx.powUint64(z, x, yy)
+	if ctx.Precision != UnlimitedPrecision {
+		ctx.Precision += y.Precision() - y.Scale() + 2
 	}
 
-	x0 := getDec(ctx)
-	if y.Signbit() {
+	// Read x and y before setting z since z might be either.
+	sign := x.Signbit() && y.isOdd()
+	n := y.Int(nil)
+	if n.Sign() < 0 {
+		n.Abs(n)
 		ctx.Precision++
-		ctx.Quo(x0, one.get(), x)
+		ctx.Quo(z, one.get(), x)
 	} else {
-		x0.Copy(x)
-	}
-	z.SetUint64(1)
-	sign := x.Signbit()
-
-	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
-	y0.Abs(y0)
-	for y0.Sign() != 0 {
-		if y0.Bit(0) != 0 {
-			ctx.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
-				break
-			}
-		}
-		y0.Rsh(y0, 1)
-		ctx.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
-		}
+		z.Copy(x)
 	}
-	putDec(x0)
-	return z.SetSignbit(sign)
+	return ctx.powBig(z, z.SetSignbit(false), n).SetSignbit(sign)
 }
 
-// powUint64 sets z = x**y.
-func (c Context) powUint64(z, x *Big, y uint64) *Big {
+// powBig sets z = x**n for the positive x and n. It clobbers n.
+func (c Context) powBig(z, x *Big, n *big.Int) *Big {
 	x0 := getDec(c).Copy(x)
-
-	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
-	for y != 0 {
-		if y&1 != 0 {
+	for z.SetUint64(1); ; c.Mul(x0, x0, x0) {
+		if n.Bit(0) != 0 {
+			// The powers of x might have been rounded.
+			z.Context.Conditions |= x0.Context.Conditions
 			c.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
+			if !z.IsFinite() || z.Sign() == 0 {
 				break
 			}
 		}
-		y >>= 1
-		c.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if n.Rsh(n, 1).Sign() == 0 {
+			break
 		}
 	}
 	putDec(x0)
-
-	z.SetSignbit(sign)
 	return z
 }
 
-- 
2.43.0


From 96f88980e23e9d85add8665404066d60d4cdf451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 17/61] fix: Exp with the default precision, and its overflow
 and underflow

---
 big_ctx.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b359fef..7b8f96a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -923,8 +923,16 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
-	z = c.exp(z, x)
-	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
+	c = c.dup()
+	c.exp(z, x)
+	switch {
+	case z.IsInf(0):
+		// Let finish decide what an overflow results in.
+		z.SetMantScale(1, -c.emax()-1)
+	case z.isZero():
+		// Likewise for an underflow.
+		z.SetMantScale(1, 1-c.etiny())
+	case z.Precision() < c.Precision:
 		s := c.Precision - z.Precision()
 		c.shiftl(z, uint64(s))
 		z.exp -= s
@@ -933,22 +941,15 @@ func (c Context) Exp(z, x *Big) *Big {
 }
 
 func (c Context) exp(z, x *Big) *Big {
-	if getmsd(x, 1) == 0 {
-		return z.SetMantScale(1, 0)
-	}
-
 	t := x.Precision() + x.exp
 	if t < 0 {
 		t = 0
 	}
 	const expMax = 19
 	if t > expMax {
-		z.Context.Conditions |= Inexact | Rounded
 		if x.Signbit() {
-			z.Context.Conditions |= Subnormal | Underflow | Clamped
-			return z.SetMantScale(0, -c.etiny())
+			return z.SetUint64(0)
 		}
-		z.Context.Conditions |= Overflow
 		return z.SetInf(false)
 	}
 
@@ -960,8 +961,8 @@ func (c Context) exp(z, x *Big) *Big {
 	}
 	lim.SetMantScale(9, c.Precision+1)
 	if x.CmpAbs(lim) <= 0 {
-		z.Context.Conditions |= Rounded | Inexact
-		return z.SetMantScale(1, 0)
+		// e ** x = 1 + x + ...
+		return c.Add(z, one.get(), x)
 	}
 
 	if x.IsInt() {
@@ -1019,7 +1020,9 @@ func (c Context) expSmall(z *Big, t int) *Big {
 
 // expLarge returns exp(z) using continued fractions.
 func (c Context) expLarge(z *Big, t int) *Big {
-	c.Precision += t + 3
+	// The working precision and range are unrelated to those of
+	// the result.
+	c = Context{Precision: c.Precision + t + 3}
 	if c.Precision < 10 {
 		c.Precision = 10
 	}
-- 
2.43.0


From b1d836e667aca355e42b6a45a1daa6970190093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 18/61] fix: round E to the requested precision

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7b8f96a..14ab52b 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -894,7 +894,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	return c.Set(z, sum)
 }
 
 // Exp sets z to e**x and returns z.
-- 
2.43.0


From fd1c3b103aeb43666f90b30858157d0b2e65b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 19/61] fix: reject malformed numbers, and do not wrap huge
 exponents when scanning

---
 big.go  |   8 +++--
 scan.go | 110 ++++++++++++++++++++++++++++++--------------------------
 2 files changed, 66 insertions(+), 52 deletions(-)

diff --git a/big.go b/big.go
index 3dd2bf0..9f93195 100644
--- a/big.go
+++ b/big.go
@@ -1420,7 +1420,11 @@ func (x *Big) Scale() int {
 
 // Scan implements fmt.Scanner.
 func (z *Big) Scan(state fmt.ScanState, verb rune) error {
-	return z.scan(byteReader{state})
+	tok, err := state.Token(true, nil)
+	if err != nil {
+		return err
+	}
+	return z.scan(bytes.NewReader(tok))
 }
 
 // Set sets z to x and returns z.
@@ -1651,7 +1655,7 @@ func (z *Big) SetScale(scale int) *Big {
 
 // Regexp matches any valid string representing a decimal that
 // can be passed to SetString.
-var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(inf(infinity)?))|([+-]?([sq]?nan\d*))`)
+var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|([+-]?inf(inity)?))|([+-]?([sq]?nan\d*))`)
 
 // SetString sets z to the value of s and returns z.
 //
diff --git a/scan.go b/scan.go
index 69f9a25..4442afc 100644
--- a/scan.go
+++ b/scan.go
@@ -1,7 +1,6 @@
 package decimal
 
 import (
-	"fmt"
 	"io"
 	"math"
 
@@ -44,8 +43,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 	if err != nil {
 		switch err {
 		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
+			z.scanNaN()
 		default:
 			return err
 		}
@@ -66,8 +64,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 			z.form = qnan
 			return io.ErrUnexpectedEOF
 		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
+			z.scanNaN()
 		default:
 			return err
 		}
@@ -78,12 +75,11 @@ func (z *Big) scan(r io.ByteScanner) error {
 	if err := z.scanExponent(r); err != nil && err != io.EOF {
 		switch err {
 		case Underflow:
-			z.xflow(MinScale, false, neg)
+			z.scanXflow(false, neg)
 		case Overflow:
-			z.xflow(MinScale, true, neg)
+			z.scanXflow(true, neg)
 		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
+			z.scanNaN()
 		default:
 			return err
 		}
@@ -97,6 +93,28 @@ func (z *Big) scan(r io.ByteScanner) error {
 	return nil
 }
 
+// scanNaN sets z to the result of scanning invalid syntax.
+func (z *Big) scanNaN() {
+	z.form = qnan
+	z.compact = 0 // payload
+	z.Context.Conditions |= ConversionSyntax
+}
+
+// scanXflow sets z, the coefficient that was scanned, to the
+// result of scanning an exponent that is too large to represent.
+func (z *Big) scanXflow(over, neg bool) {
+	if !z.isZero() {
+		z.xflow(MinScale, over, neg)
+		return
+	}
+	z.exp = MinScale
+	if over {
+		z.exp = MaxScale
+	}
+	z.SetSignbit(neg)
+	z.Context.Conditions |= Clamped
+}
+
 func scanSign(r io.ByteScanner) (bool, error) {
 	ch, err := r.ReadByte()
 	if err != nil {
@@ -205,6 +223,12 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
+	if _, err := r.ReadByte(); err != io.EOF {
+		if err != nil {
+			return 0, err
+		}
+		return 0, ConversionSyntax
+	}
 	return inf, nil
 }
 
@@ -268,6 +292,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -300,6 +328,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -312,12 +343,15 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		r.UnreadByte()
 	}
 
-	max := uint64(arith.MaxInt)
-	if neg {
-		max++ // -math.MinInt
-	}
+	// Adding the exponents of a few decimals must not overflow an
+	// int, so it can't be arbitrarily large.
+	const max = 2 * c.MaxScale
 
-	var exp uint64
+	var (
+		exp   uint64
+		empty = true
+		xflow = false
+	)
 	for {
 		ch, err := r.ReadByte()
 		if err != nil {
@@ -329,24 +363,20 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if ch < '0' || ch > '9' {
 			return ConversionSyntax
 		}
-		d := ch - '0'
-		if d >= 10 {
-			return ConversionSyntax
-		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
+		d := uint64(ch - '0')
+		empty = false
+		if xflow = xflow || exp > (max-d)/10; !xflow {
+			exp = exp*10 + d
 		}
-		exp *= 10
+	}
 
-		v := exp + uint64(d)
-		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
-		}
-		exp = v
+	switch {
+	case empty:
+		return ConversionSyntax
+	case xflow && neg:
+		return Underflow
+	case xflow:
+		return Overflow
 	}
 
 	if neg {
@@ -356,23 +386,3 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 	return nil
 }
-
-// byteReader implementation borrowed from math/big/intconv.go
-
-// byteReader is a local wrapper around fmt.ScanState; it implements the
-// io.ByteReader interface.
-type byteReader struct {
-	fmt.ScanState
-}
-
-func (r byteReader) ReadByte() (byte, error) {
-	ch, size, err := r.ReadRune()
-	if size != 1 && err == nil {
-		err = fmt.Errorf("invalid rune %#U", ch)
-	}
-	return byte(ch), err
-}
-
-func (r byteReader) UnreadByte() error {
-	return r.UnreadRune()
-}
-- 
2.43.0


From 01aabc70c50ddfbde2595c6632862a5ba060e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 20/61] fix: rounding, carries and padding when formatting

---
 big.go    | 31 +++++++++++++++++++++----------
 format.go | 34 +++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/big.go b/big.go
index 9f93195..33b63fa 100644
--- a/big.go
+++ b/big.go
@@ -837,7 +837,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 	var (
 		hash    = s.Flag('#')
 		dash    = s.Flag('-')
-		lpZero  = s.Flag('0')
+		lpZero  = s.Flag('0') && !dash && x.IsFinite()
 		lpSpace = width != noWidth && !dash && !lpZero
 		plus    = s.Flag('+')
 		space   = s.Flag(' ')
@@ -888,16 +888,17 @@ func (x *Big) Format(s fmt.State, c rune) {
 	case 'f', 'F':
 		if !hasPrec {
 			prec = 0
-		} else {
+		} else if x.IsFinite() {
 			// %f's precision means "number of digits after the radix"
-			if x.exp > 0 {
-				f.prec += (x.exp + x.Precision())
-			} else {
-				if adj := x.exp + x.Precision(); adj > -f.prec {
-					f.prec += adj
-				} else {
-					f.prec = -f.prec
+			if x.isZero() || -x.exp > f.prec {
+				ctx := Context{
+					Precision:    UnlimitedPrecision,
+					RoundingMode: x.Context.RoundingMode,
 				}
+				x = ctx.Quantize(WithContext(ctx).Copy(x), f.prec)
+				f.prec = x.Precision()
+			} else {
+				f.prec += x.exp + x.Precision()
 			}
 		}
 
@@ -945,6 +946,16 @@ func (x *Big) Format(s fmt.State, c rune) {
 		return
 	}
 
+	var str string
+	if tmpbuf {
+		str = f.w.(*strings.Builder).String()
+		if lpZero && (str[0] == '-' || str[0] == '+' || str[0] == ' ') {
+			// The zeros go in between the sign and the digits.
+			io.WriteString(s, str[:1])
+			str = str[1:]
+		}
+	}
+
 	// Need padding out to width.
 	if f.n < int64(width) {
 		switch pad := int64(width) - f.n; {
@@ -959,7 +970,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 
 	if tmpbuf {
 		// fmt's internal state type implements stringWriter I think.
-		io.WriteString(s, f.w.(*strings.Builder).String())
+		io.WriteString(s, str)
 	}
 }
 
diff --git a/format.go b/format.go
index 8a34100..1a72c8d 100644
--- a/format.go
+++ b/format.go
@@ -32,6 +32,11 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 		return b[:prec]
 	}
 
+	// half is the digits being removed compared to one half.
+	half := int(b[prec]) - '5'
+	if half == 0 && !allZeros(b[prec+1:]) {
+		half = +1
+	}
 	b = b[:prec+1]
 	i := prec - 1
 
@@ -50,15 +55,15 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 			b[i]++
 		}
 	case ToNearestEven:
-		if b[i+1] > '5' || b[i+1] == '5' && b[i]%2 != 0 {
+		if half > 0 || half == 0 && b[i]%2 != 0 {
 			b[i]++
 		}
 	case ToNearestAway:
-		if b[i+1] >= '5' {
+		if half >= 0 {
 			b[i]++
 		}
 	case ToNearestTowardZero:
-		if b[i+1] > '5' {
+		if half > 0 {
 			b[i]++
 		}
 	}
@@ -182,12 +187,7 @@ func (f *formatter) format(x *Big, format format, e byte) {
 
 	if x.isZero() && o == Go {
 		// Go mode prints zeros different than GDA.
-		if f.width == noWidth {
-			f.WriteByte('0')
-		} else {
-			f.WriteString("0.")
-			io.CopyN(f, zeroReader{}, int64(f.width))
-		}
+		f.WriteByte('0')
 		return
 	}
 
@@ -210,10 +210,12 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		}
 		orig := len(b)
 		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
-		exp = int(x.exp) + orig - len(b)
-	} else if f.prec < 0 {
-		f.prec = -f.prec
-		exp = -f.prec
+		exp = int(x.exp) + orig - f.prec
+		if len(b) > f.prec {
+			// Carried into a new digit.
+			b = b[:f.prec]
+			exp++
+		}
 	} else {
 		b = []byte{'0'}
 	}
@@ -237,7 +239,9 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		// No decimal places, write b and fill with zeros.
 		if format == plain && exp > 0 {
 			f.Write(b)
-			io.CopyN(f, zeroReader{}, int64(exp))
+			if !x.isZero() {
+				io.CopyN(f, zeroReader{}, int64(exp))
+			}
 			return
 		}
 	}
@@ -255,7 +259,7 @@ func (f *formatter) formatSci(b []byte, adj int, e byte) {
 
 	// If negative, the call to strconv.Itoa will add the minus sign for us.
 	f.WriteByte(e)
-	if adj > 0 {
+	if adj >= 0 {
 		f.WriteByte('+')
 	}
 	f.WriteString(strconv.Itoa(adj))
-- 
2.43.0


From fb92e585aaf82fdb5b25b98caca03be139387d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 21/61] fix: convert decimals smaller than one to the integer
 zero

---
 big.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/big.go b/big.go
index 33b63fa..92f1444 100644
--- a/big.go
+++ b/big.go
@@ -1030,6 +1030,11 @@ func (x *Big) Int64() (int64, bool) {
 		return xb.Int64(), xb.IsInt64()
 	}
 
+	if x.exp < -arith.MaxLength {
+		// 0 < |x| < 1
+		return 0, true
+	}
+
 	u := x.compact
 	if x.exp != 0 {
 		var ok bool
@@ -1071,6 +1076,10 @@ func (x *Big) Uint64() (uint64, bool) {
 	if x.exp == 0 {
 		return b, true
 	}
+	if x.exp < -arith.MaxLength {
+		// 0 < x < 1
+		return 0, true
+	}
 	return scalex(b, x.exp)
 }
 
-- 
2.43.0


From 1ae0d9324b60e6b3321b3ff45016227c87192951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 22/61] fix: SetFloat of zeros and of the largest uint64

---
 big.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/big.go b/big.go
index 92f1444..717fb7e 100644
--- a/big.go
+++ b/big.go
@@ -1509,12 +1509,11 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		var sign form
 		if neg {
-			z.form |= signbit
+			sign = signbit
 		}
-		z.compact = 0
-		z.precision = 1
-		return z
+		return z.setZero(sign, 0)
 	}
 
 	z.exp = 0
@@ -1527,7 +1526,7 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
+	if mant, acc := x0.Uint64(); acc == big.Exact && mant != c.Inflated {
 		z.compact = mant
 		z.precision = arith.Length(mant)
 	} else {
-- 
2.43.0


From 46850bf6c4b2afd4ba16cebcf662327e4b56e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 23/61] fix: Float64 of negative infinities, and round it only
 once

---
 big.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/big.go b/big.go
index 717fb7e..d4d0cba 100644
--- a/big.go
+++ b/big.go
@@ -726,7 +726,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 	if !x.IsFinite() {
 		switch x.form {
 		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+			return math.Inf(-int(x.form & signbit)), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
@@ -736,6 +736,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	const (
 		maxMantissa = 1<<53 + 1 // largest exact mantissa
+		maxPow10    = 22        // largest exact power of ten
 	)
 
 	parse := false
@@ -748,19 +749,23 @@ func (x *Big) Float64() (f float64, ok bool) {
 	case x.exp == 0:
 		f = float64(xc)
 		ok = xc < maxMantissa || (xc&(xc-1)) == 0
-	case x.exp > 0:
+	case xc >= maxMantissa:
+		parse = true
+	case x.exp > 0 && x.exp <= maxPow10:
 		f = float64(x.compact) * math.Pow10(x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
-	case x.exp < 0:
+		ok = true
+	case x.exp < 0 && x.exp >= -maxPow10:
 		f = float64(x.compact) / math.Pow10(-x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = true
 	default:
 		parse = true
 	}
 
 	if parse {
+		// The sign is set later on.
 		f, _ = strconv.ParseFloat(x.String(), 64)
-		ok = !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = !math.IsInf(f, 0) && f != 0 &&
+			(!x.isCompact() || x.compact < maxMantissa)
 	}
 
 	if x.form&signbit != 0 {
@@ -785,6 +790,9 @@ func (x *Big) Float(z *big.Float) *big.Float {
 	case finite, finite | signbit:
 		if x.isZero() {
 			z.SetUint64(0)
+			if x.Signbit() {
+				z.Neg(z)
+			}
 		} else {
 			z.SetRat(x.Rat(nil))
 		}
-- 
2.43.0


From 70f0639e64b125cf8b922a60a125d1319ba29078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 24/61] fix: leave the decimal as it is when unmarshaling a
 JSON null

---
 big.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big.go b/big.go
index d4d0cba..0228121 100644
--- a/big.go
+++ b/big.go
@@ -1803,6 +1803,10 @@ func (z *Big) Sub(x, y *Big) *Big {
 
 // UnmarshalJSON implements json.Unmarshaler.
 func (z *Big) UnmarshalJSON(data []byte) error {
+	if string(data) == "null" {
+		// By convention.
+		return nil
+	}
 	if len(data) >= 2 && data[0] == '"' && data[len(data)-1] == '"' {
 		data = data[1 : len(data)-1]
 	}
-- 
2.43.0


From 2ad45e9cb2955c381a309e292d8b372edbc2c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 25/61] fix: zeros are neither normal nor subnormal

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 0228121..6302b26 100644
--- a/big.go
+++ b/big.go
@@ -1098,12 +1098,12 @@ func (x *Big) IsFinite() bool {
 
 // IsNormal reports whether x is normal.
 func (x *Big) IsNormal() bool {
-	return x.IsFinite() && x.adjusted() >= x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() >= x.Context.emin()
 }
 
 // IsSubnormal reports whether x is subnormal.
 func (x *Big) IsSubnormal() bool {
-	return x.IsFinite() && x.adjusted() < x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() < x.Context.emin()
 }
 
 // IsInf reports whether x is an infinity according to sign.
-- 
2.43.0


From 5537146590240306b57f2f478cc134427e763ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 26/61] fix: compose negative decimals exactly

---
 decomposer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..30517ee 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -41,7 +41,7 @@ type decomposer interface {
 // If the provided buf has sufficient capacity, buf may be returned as the coefficient with
 // the value set and length set as appropriate.
 func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byte, exponent int32) {
-	negative = z.Sign() < 0
+	negative = z.Signbit()
 	switch {
 	case z.IsInf(0):
 		form = 1
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -89,8 +89,7 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc := &big.Int{}
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
-	if negative {
-		z.Neg(z)
-	}
+	// Neg would round z.
+	z.SetSignbit(negative)
 	return nil
 }
-- 
2.43.0


From 3bd696eade851f983ef3c10cb5206e38e5107894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 27/61] fix: round too many fractional digits without modifying
 the decimal

---
 sql/postgres/decimal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..f00a6a5 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -62,17 +62,24 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		// Rounding down the integral part automatically chops off the fractional
 		// part.
-		return v.Round(MaxIntegralDigits).String(), nil
+		return copyOf(v).Round(MaxIntegralDigits).String(), nil
 	}
 	if sl > MaxFractionalDigits {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		v = copyOf(v)
+		v.Context.Precision = decimal.UnlimitedPrecision
+		v.Quantize(MaxFractionalDigits)
 	}
 	return v.String(), nil
 }
 
+// copyOf returns a copy of x since Value must not modify d.V.
+func copyOf(x *decimal.Big) *decimal.Big {
+	return decimal.WithContext(x.Context).Copy(x)
+}
+
 // Scan implements sql.Scanner.
 func (d *Decimal) Scan(val interface{}) error {
 	if d.V == nil {
-- 
2.43.0


From ca21ab00401f66956910e6aca8b4e8ddf61878d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 28/61] fix: do not scale tiny decimals when converting them to
 integers

---
 big.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big.go b/big.go
index 6302b26..bf199df 100644
--- a/big.go
+++ b/big.go
@@ -1015,6 +1015,10 @@ func (x *Big) Int(z *big.Int) *big.Int {
 	if x.exp == 0 {
 		return z
 	}
+	if -x.exp >= x.Precision() {
+		// 0 <= |x| < 1
+		return z.SetUint64(0)
+	}
 	return bigScalex(z, z, x.exp)
 }
 
-- 
2.43.0


From c902d7308ce5ee597ffa7702e20ba61a72d5a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 29/61] fix: Abs checks the given Context

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 14ab52b..842d36d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
-- 
2.43.0


From 4a1cbf5894600e06b9c9ef69f0a5c52b1befdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 30/61] fix: compare decimals with integers exactly

---
 big.go | 50 ++++----------------------------------------------
 1 file changed, 4 insertions(+), 46 deletions(-)

diff --git a/big.go b/big.go
index bf199df..ede3c34 100644
--- a/big.go
+++ b/big.go
@@ -395,55 +395,13 @@ func (x *Big) CmpAbs(y *Big) int {
 }
 
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	var tmp Big
+	return x.Cmp(tmp.SetMantScale(y, 0))
 }
 
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
-	}
-	return arith.Cmp(t, u)
+	var tmp Big
+	return x.CmpAbs(tmp.SetMantScale(y, 0))
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
-- 
2.43.0


From 647f74cb1d8b448960d342c4dd9c55f8aa57303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 31/61] fix: accuracy, special values and aliasing of the
 inverse trigonometric functions

---
 big_ctx.go | 89 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 842d36d..8d58e00 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -304,6 +304,15 @@ func (c Context) addBig(z *Big, X *big.Int, Xsign form, Y *big.Int, Ysign form,
 	return sign
 }
 
+// work returns the Context for the intermediate operations of
+// functions that are rounded using c.
+func (c Context) work() Context {
+	return Context{
+		Precision:  c.precision() + defaultExtraPrecision,
+		Conditions: c.Conditions,
+	}
+}
+
 // Acos returns the arccosine, in radians, of x.
 //
 // Range:
@@ -340,14 +349,18 @@ func (c Context) Acos(z, x *Big) *Big {
 		return z.SetUint64(0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.work()
 
-	// Acos(x) = pi/2 - arcsin(x)
+	// Acos(x) = 2 * atan(sqrt((1 - x) / (1 + x)))
 
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Sub(z, pi2, ctx.Asin(z, x))
-	putDec(pi2)
+	tmp := getDec(ctx)
+	ctx.Sub(tmp, one.get(), x)
+	ctx.Add(z, one.get(), x)
+	ctx.Quo(z, tmp, z)
+	ctx.Sqrt(z, z)
+	ctx.Atan(z, z)
+	ctx.Mul(z, z, two.get())
+	putDec(tmp)
 	return c.finish(z)
 }
 
@@ -379,16 +392,17 @@ func (c Context) Asin(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
-	if cmp1 == 0 {
-		c.pi2(z)
-		if x.Signbit() {
-			z.SetSignbit(true)
-		}
-		return z
+	if x.isZero() {
+		return z.setZero(x.form, 0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.work()
+
+	if cmp1 == 0 {
+		sign := x.Signbit()
+		ctx.pi2(z).SetSignbit(sign)
+		return c.finish(z)
+	}
 
 	// Asin(x) = 2 * atan(x / (1 + sqrt(1 - x*x)))
 
@@ -396,8 +410,11 @@ func (c Context) Asin(z, x *Big) *Big {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
 	}
-	c.Mul(z, x, x)           //                            x*x
-	ctx.Sub(z, one.get(), z) //                        1 - x*x
+	tmp := getDec(ctx)
+	ctx.Sub(tmp, one.get(), x)
+	ctx.Add(z, one.get(), x)
+	ctx.Mul(z, z, tmp) //                              1 - x*x
+	putDec(tmp)
 	ctx.Sqrt(z, z)           //                   sqrt(1 - x*x)
 	ctx.Add(z, one.get(), z) //               1 + sqrt(1 - x*x)
 	ctx.Quo(z, x, z)         //          x / (1 + sqrt(1 - x*x))
@@ -427,20 +444,24 @@ func (c Context) Atan(z, x *Big) *Big {
 		return z
 	}
 
+	ctx := c.work()
+
 	if x.IsInf(0) {
-		c.pi2(z)
-		z.form |= x.form & signbit
-		return z
+		sign := x.Signbit()
+		ctx.pi2(z).SetSignbit(sign)
+		return c.finish(z)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if x.isZero() {
+		return z.setZero(x.form, 0)
+	}
 
-	// when x <-1 we use -atan(-x) instead
-	if cmpInt(x, -1) < 0 {
-		z.CopyNeg(x)       //       -x
-		ctx.Atan(z, z)     //  atan(-x)
-		return c.Neg(z, z) // -atan(-x)
+	// atan(-x) = -atan(x)
+	if x.Signbit() {
+		z.CopyNeg(x)          //       -x
+		ctx.Atan(z, z)        //  atan(-x)
+		z.SetSignbit(true)    // -atan(-x)
+		return c.finish(z)
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
@@ -621,12 +642,11 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan) {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.work()
 
 	switch {
 	// Special values.
@@ -636,8 +656,9 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
+		neg := x.Signbit() // in case z == x
 		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
+		if neg {
 			pi := ctx.pi(getDec(ctx))
 			if z.Sign() <= 0 {
 				ctx.Add(z, z, pi)
@@ -1201,12 +1222,14 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.CheckNaNs(p, q) {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision++
+	ctx := c.work()
 
 	p0 := getDec(ctx)
 	ctx.Mul(p0, p, p)
@@ -1217,8 +1240,10 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 		q0 := getDec(ctx)
 		ctx.Mul(q0, q, q)
 		ctx.Sqrt(z, ctx.Add(z, p0, q0))
+		z.Context.Conditions |= q0.Context.Conditions
 		putDec(q0)
 	}
+	z.Context.Conditions |= p0.Context.Conditions
 	putDec(p0)
 
 	return c.finish(z)
-- 
2.43.0


From 8b24684974f682cc19fd784cd228bec4aa12e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 32/61] fix: accuracy of the trigonometric functions

---
 big_ctx.go | 228 +++++++++++++++++++++++++----------------------------
 1 file changed, 107 insertions(+), 121 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 8d58e00..852fbbd 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -737,31 +737,86 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if x.isZero() {
+		// cos(0) = 1
+		return z.SetUint64(1)
+	}
 
-	negXSq, halved, ok := ctx.prepCosine(z, x)
-	if !ok {
+	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
+		// cos(x) = 1 - x**2/2 + ...
+		tiny := New(1, c.precision()+2*defaultExtraPrecision)
+		return c.Sub(z, one.get(), tiny)
+	}
+
+	if !c.sinCos(z, x, false) {
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
 	}
+	return c.finish(z)
+}
+
+// sinCos sets z to the sine or cosine of x, which is finite and
+// not zero. The relative error is less than the precision that
+// c.work has. It reports whether x is in range.
+func (c Context) sinCos(z, x *Big, sin bool) bool {
+	ctx := c.work()
+	x0 := getDec(ctx).Copy(x)
+	y := getDec(ctx).Copy(x)
+	defer putDec(x0)
+	defer putDec(y)
+
+	for {
+		if sin {
+			// sin(x) = cos(pi/2 - x)
+			ctx0 := ctx
+			if adj := x0.adjusted(); adj > 0 {
+				ctx0.Precision += min(adj, arith.MaxLength)
+			}
+			ctx0.Precision++
+			ctx0.Sub(y, ctx0.pi2(y), x0)
+		}
+		if !ctx.cos(z, y) {
+			return false
+		}
+		// The absolute error is less than the precision. Try
+		// again if too many of the leading digits canceled.
+		want := c.precision() + defaultExtraPrecision
+		if !z.isZero() {
+			want -= z.adjusted()
+		} else {
+			want = 2 * ctx.Precision
+		}
+		if want <= ctx.Precision+1 {
+			return true
+		}
+		ctx.Precision = want
+	}
+}
 
-	ctx.Precision += halved
-	z.Copy(BinarySplitDynamic(ctx,
+// cos sets z to the cosine of x. The absolute error is less than
+// the precision. It reports whether x is in range.
+func (c Context) cos(z, x *Big) bool {
+	negXSq, halved, ok := c.prepCosine(z, x)
+	if !ok {
+		return false
+	}
+
+	c.Precision += halved
+	z.Copy(BinarySplitDynamic(c,
 		func(_ uint64) *Big { return one.get() },
 		getCosineP(negXSq),
 		func(_ uint64) *Big { return one.get() },
-		ctx.getCosineQ(),
+		c.getCosineQ(),
 	))
 
 	// now undo the half angle bit
 	for i := 0; i < halved; i++ {
-		ctx.Mul(z, z, z)
-		ctx.Mul(z, z, two.get())
-		ctx.Sub(z, z, one.get())
+		c.Mul(z, z, z)
+		c.Mul(z, z, two.get())
+		c.Sub(z, z, one.get())
 	}
-
-	return c.finish(z)
+	z.Context.Conditions |= Inexact | Rounded
+	return true
 }
 
 func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
@@ -779,30 +834,25 @@ func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
 	if x.CmpAbs(&twoPi) >= 0 {
 		// For cos to work correctly the input must be in (-2Pi,
 		// 2Pi).
-		c.Quo(&tmp, x, &twoPi)
-		v, ok := tmp.Int64()
-		if !ok {
+		adj := x.adjusted()
+		if adj > arith.MaxLength {
 			return nil, 0, false
 		}
-		uv := arith.Abs(v)
 
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be wildly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
+		// Both the quotient and 2*Pi need as many additional
+		// digits as the quotient has.
+		pctx := Context{Precision: c.Precision + adj + 2}
+		pctx.Mul(&twoPi, pctx.pi(&twoPi), two.get())
+		pctx.Quo(&tmp, x, &twoPi)
+		v, ok := tmp.Int64()
+		if !ok {
 			return nil, 0, false
 		}
-		pctx := Context{Precision: int(prec)}
-
-		if uv <= math.MaxInt64/2 {
-			tmp.SetMantScale(v, 0)
-		}
-
+		tmp.SetMantScale(v, 0)
 		pctx.Mul(&tmp, &twoPi, &tmp)
 
 		// so toRemove = 2*Pi*v so x - toRemove < 2*Pi
-		c.Sub(z, x, &tmp)
+		pctx.Sub(z, x, &tmp)
 	} else {
 		z.Copy(x)
 	}
@@ -3054,13 +3104,19 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
-	// Sin(x) = Cos(pi/2 - x)
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Cos(z, ctx.Sub(z, pi2, x))
-	putDec(pi2)
+	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
+		// sin(x) = x - x**3/6 + ...
+		tiny := New(1, c.precision()+2*defaultExtraPrecision-x.adjusted())
+		if x.Signbit() {
+			return c.Add(z, x, tiny)
+		}
+		return c.Sub(z, x, tiny)
+	}
 
+	if !c.sinCos(z, x, true) {
+		z.Context.Conditions |= InvalidOperation
+		return z.SetNaN(false)
+	}
 	return c.finish(z)
 }
 
@@ -3128,98 +3184,28 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-
-	x0, ok := ctx.prepTan(z, x)
-	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+	if x.isZero() {
+		// tan(0) = 0
+		return z.setZero(0, 0)
 	}
 
-	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-
-	// tangent has an asymptote at pi/2 and we'll need more
-	// precision as we get closer the reason we need it is as we
-	// approach pi/2 is due to the squaring portion, it will
-	// cause the small value of Cosine to be come extremely
-	// small. we COULD fix it by simply doubling the precision,
-	// however, when the precision gets larger it will be
-	// a significant impact to performance, instead we'll only
-	// add the extra precision when we need it by using the
-	// difference to see how much extra precision we need we'll
-	// speed things up by only using a quick compare to see if we
-	// need to do a deeper inspection.
-	tctx := ctx.dup()
-	tmp := getDec(tctx)
-	defer putDec(tmp)
-
-	if x.CmpAbs(onePtFour.get()) >= 0 {
+	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
+		// tan(x) = x + x**3/3 + ...
+		tiny := New(1, c.precision()+2*defaultExtraPrecision-x.adjusted())
 		if x.Signbit() {
-			ctx.Add(tmp, x, ctx.pi2(tmp))
-		} else {
-			ctx.Sub(tmp, x, ctx.pi2(tmp))
+			return c.Sub(z, x, tiny)
 		}
-		tctx.Precision += tmp.Scale() - tmp.Precision()
-	}
-
-	tctx.Cos(tmp, x0)
-	ctx.Mul(tmp, tmp, tmp)
-	ctx.Quo(tmp, one.get(), tmp)
-	ctx.Sub(tmp, tmp, one.get())
-	tctx.Sqrt(tmp, tmp)
-	if x0.Signbit() {
-		tmp.CopyNeg(tmp)
-	}
-	ctx.Precision -= defaultExtraPrecision
-	return ctx.Set(z, tmp)
-}
-
-func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
+		return c.Add(z, x, tiny)
 	}
 
-	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
-		// For tan to work correctly the input must be in (-2pi,
-		// 2pi)
-		if x.Signbit() {
-			c.Add(z, x, pi2)
-		} else {
-			c.Sub(z, x, pi2)
-		}
-
-		var tmp Big
-		c.QuoInt(z, z, c.pi(&tmp))
-		if x.Signbit() {
-			c.Sub(z, z, one.get())
-		} else {
-			c.Add(z, z, one.get())
-		}
-
-		v, ok := z.Int64()
-		if !ok {
-			return nil, false
-		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be widly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, false
-		}
-		pctx := Context{Precision: int(prec)}
-
-		pctx.Mul(z, pctx.pi(&tmp), z)
-
-		c.Precision = c.precision() + 1
-		// so toRemove = m*Pi so |x-toRemove| < Pi/2
-		c.Sub(z, x, z)
-	} else {
-		z.Copy(x)
+	// tan(x) = sin(x) / cos(x)
+	ctx := c.work()
+	tmp := getDec(ctx)
+	defer putDec(tmp)
+	if !c.sinCos(tmp, x, false) || !c.sinCos(z, x, true) {
+		z.Context.Conditions |= InvalidOperation
+		return z.SetNaN(false)
 	}
-	return z, true
+	ctx.Quo(z, z, tmp)
+	return c.finish(z)
 }
-- 
2.43.0


From cdac819213470438c930dfadba8ea98bc5707ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 33/61] fix: logarithms and powers in a Context with a small
 range

---
 big_ctx.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 852fbbd..21ed281 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -489,6 +489,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	case 2:
 		ctx.Sub(z, ctx.pi2(tmp), z) // clobber _2p
 	}
+	z.Context.Conditions |= Inexact | Rounded
 	return c.finish(z)
 }
 
@@ -1313,7 +1314,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if logSpecials(z, x) {
 		return z
 	}
-	return c.finish(c.log(z, x, false))
+	return c.finish(c.logContext().log(z, x, false))
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
@@ -1343,7 +1344,13 @@ func (c Context) Log10(z, x *Big) *Big {
 		z.SetMantScale(int64(x.adjusted()), 0)
 		return c.finish(z)
 	}
-	return c.finish(c.log(z, x, true))
+	return c.finish(c.logContext().log(z, x, true))
+}
+
+// logContext returns the Context used to compute a logarithm that
+// is finished with c. Only the result has to fit c's range.
+func (c Context) logContext() Context {
+	return Context{Precision: c.precision(), RoundingMode: c.RoundingMode}
 }
 
 // logSpecials checks for special values (Inf, NaN, 0) for
@@ -1384,17 +1391,6 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 		}
 	}
 
-	t := int64(x.adjusted())
-	if t < 0 {
-		t = -t - 1
-	}
-	t *= 2
-
-	if arith.Length(arith.Abs(t))-1 > c.emax() {
-		z.Context.Conditions |= Overflow | Inexact | Rounded
-		return z.SetInf(t < 0)
-	}
-
 	// Argument reduction:
 	// Given
 	//    ln(a) = ln(b) + ln(c), where a = b * c
@@ -2186,7 +2182,7 @@ func (c Context) powDec(z, x, y *Big) *Big {
 		defer putDec(x)
 	}
 
-	work := c
+	work := Context{}
 	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
 	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
 	if neg && z.IsFinite() {
-- 
2.43.0


From cf5fed3e0b3d4b065bf318079b4c6601b0ee9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 34/61] fix: give the exponential enough guard digits

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 21ed281..67e7c5d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1094,7 +1094,7 @@ func (c Context) expSmall(z *Big, t int) *Big {
 func (c Context) expLarge(z *Big, t int) *Big {
 	// The working precision and range are unrelated to those of
 	// the result.
-	c = Context{Precision: c.Precision + t + 3}
+	c = Context{Precision: c.Precision + t + 8}
 	if c.Precision < 10 {
 		c.Precision = 10
 	}
-- 
2.43.0


From 3866d4499d5967120895b2e7728e3c411be3a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 35/61] fix: additions in the Go OperatingMode lost operands
 that are far apart

---
 big_ctx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 67e7c5d..0e3d67d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -123,7 +123,8 @@ func (c Context) add(z, x *Big, xform form, y *Big, yform form) form {
 //
 // tryTinyAdd reports whether the "tiny" addition was performed.
 func (c Context) tryTinyAdd(z *Big, X *Big, Xsign form, Y *Big, Ysign form) (form, bool) {
-	if X.isZero() {
+	// Additions are lossless in the Go OperatingMode.
+	if X.isZero() || c.OperatingMode == Go {
 		return 0, false
 	}
 
@@ -1034,6 +1035,7 @@ func (c Context) exp(z, x *Big) *Big {
 	lim.SetMantScale(9, c.Precision+1)
 	if x.CmpAbs(lim) <= 0 {
 		// e ** x = 1 + x + ...
+		c.OperatingMode = GDA // always round
 		return c.Add(z, one.get(), x)
 	}
 
@@ -1871,6 +1873,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	c.OperatingMode = GDA // always round
 	c.RoundingMode = ToNegativeInf
 	conds := z.Context.Conditions
 	c.Sub(z, x, new(Big).SetMantScale(1, -min(x.exp, c.etiny())+1))
@@ -1901,6 +1904,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	c.OperatingMode = GDA // always round
 	c.RoundingMode = ToPositiveInf
 	conds := z.Context.Conditions
 	c.Add(z, x, new(Big).SetMantScale(1, -min(x.exp, c.etiny())+1))
-- 
2.43.0


From ebf87030cd6655ce5592f03225a33eef1d45ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 36/61] fix: Ceil rounded to the precision and flipped the sign
 of NaNs

---
 big_ctx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 0e3d67d..b7d0682 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -937,8 +937,11 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
+		return z
+	}
+	c.RoundingMode = ToPositiveInf
+	return c.RoundToInt(z.Copy(x))
 }
 
 // E sets z to the mathematical constant e and returns z.
@@ -1244,7 +1247,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
-- 
2.43.0


From 3c7d39104e0f993cb85a9bf601556587d4c7e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 37/61] fix: Round rounded when asked for no rounding

---
 big.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big.go b/big.go
index ede3c34..51b3fec 100644
--- a/big.go
+++ b/big.go
@@ -1377,6 +1377,9 @@ func (z *Big) Rem(x, y *Big) *Big {
 // occur if n <= 0. The result of Round will always be in the
 // interval [⌊10**p⌋, z] where p = the precision of z.
 func (z *Big) Round(n int) *Big {
+	if n <= 0 {
+		return z
+	}
 	ctx := z.Context
 	ctx.Precision = n
 	return ctx.Round(z)
-- 
2.43.0


From 6a9d2ffa8254de01eeed1a3a65a44af940e4f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 38/61] fix: check for invalid Contexts in all rounding
 operations

---
 big_ctx.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b7d0682..d859f54 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -946,6 +946,9 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _E.get())
 	}
@@ -1281,7 +1284,7 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.CheckNaNs(p, q) {
+	if z.checkNaNs(p, q, 0) {
 		return z
 	}
 
@@ -1863,7 +1866,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
 		return z
 	}
 
@@ -1894,7 +1897,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
 		return z
 	}
 
@@ -1933,6 +1936,9 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.pi(z)
 }
 
@@ -2058,7 +2064,7 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 
 // Pow sets z to x**y and returns z.
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if z.invalidContext(c) || z.checkNaNs(x, y, 0) {
 		return z
 	}
 
@@ -2910,6 +2916,9 @@ func (c Context) round(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.isSpecial() {
 		z.checkNaNs(z, z, quantization)
 		return z
@@ -2989,7 +2998,7 @@ func cmpHalf(x *Big) int {
 
 // Sqrt sets z to the square root of x and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 
@@ -3049,12 +3058,18 @@ func (c Context) sqrt3(z *Big) *Big {
 //
 // The result might be rounded, even if z == x.
 func (c Context) Set(z, x *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.finish(z.Copy(x))
 }
 
 // SetRat sets z to to the possibly rounded value of x and
 // returns z.
 func (c Context) SetRat(z *Big, x *big.Rat) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if x.IsInt() {
 		return c.finish(z.SetBigMantScale(x.Num(), 0))
 	}
-- 
2.43.0


From 5c7b7e8f417b11e869b49ea2f7a392dd3799c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 39/61] fix: Float returned infinities with the opposite sign

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 51b3fec..d0896b9 100644
--- a/big.go
+++ b/big.go
@@ -755,7 +755,7 @@ func (x *Big) Float(z *big.Float) *big.Float {
 			z.SetRat(x.Rat(nil))
 		}
 	case pinf, ninf:
-		z.SetInf(x.form == pinf)
+		z.SetInf(x.form == ninf)
 	default: // snan, qnan, ssnan, sqnan:
 		z.SetUint64(0)
 	}
-- 
2.43.0


From a9cbd1de20c2de72bc2c0f4863fdfdfed46ffe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 40/61] fix: invalid operations of functions didn't panic in Go
 mode

---
 big_ctx.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d859f54..ea616d3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -339,8 +339,7 @@ func (c Context) Acos(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -389,8 +388,7 @@ func (c Context) Asin(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -735,8 +733,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -751,8 +748,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	}
 
 	if !c.sinCos(z, x, false) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	return c.finish(z)
 }
@@ -1370,8 +1366,7 @@ func logSpecials(z, x *Big) bool {
 			z.SetInf(true)
 		} else {
 			// log -x is undefined.
-			z.Context.Conditions |= InvalidOperation
-			z.SetNaN(false)
+			z.setNaN(InvalidOperation, qnan, 0)
 		}
 		return true
 	}
@@ -2072,8 +2067,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s == 0 {
 			if y.Sign() == 0 {
 				// 0 ** 0 is undefined
-				z.Context.Conditions |= InvalidOperation
-				return z.SetNaN(false)
+				return z.setNaN(InvalidOperation, qnan, 0)
 			}
 			sign := x.Signbit() && y.isOdd()
 			if y.Signbit() {
@@ -2086,8 +2080,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
 			// -x ** ±Inf is undefined
-			z.Context.Conditions |= InvalidOperation
-			return z.SetNaN(false)
+			return z.setNaN(InvalidOperation, qnan, 0)
 		}
 	}
 
@@ -3008,8 +3001,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		if xs == 0 {
 			return c.fix(z.setZero(x.form&signbit, ideal))
 		}
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// Already checked for negative numbers.
@@ -3113,8 +3105,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// sin(inf) = NaN
 		// sin(NaN) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3132,8 +3123,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	}
 
 	if !c.sinCos(z, x, true) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	return c.finish(z)
 }
@@ -3198,8 +3188,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
 		// tan(inf) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3221,8 +3210,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	tmp := getDec(ctx)
 	defer putDec(tmp)
 	if !c.sinCos(tmp, x, false) || !c.sinCos(z, x, true) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	ctx.Quo(z, z, tmp)
 	return c.finish(z)
-- 
2.43.0


From b8427d520b629a9e76cae4d5f3003f7d13d2e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 41/61] fix: functions with unlimited precision didn't
 terminate

---
 big_ctx.go | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 util.go    | 13 +++++++++++++
 2 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index ea616d3..4cb0562 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -455,6 +455,10 @@ func (c Context) Atan(z, x *Big) *Big {
 		return z.setZero(x.form, 0)
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	// atan(-x) = -atan(x)
 	if x.Signbit() {
 		z.CopyNeg(x)          //       -x
@@ -741,6 +745,10 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
 		// cos(x) = 1 - x**2/2 + ...
 		tiny := New(1, c.precision()+2*defaultExtraPrecision)
@@ -998,6 +1006,10 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	c = c.dup()
 	c.exp(z, x)
 	switch {
@@ -1389,10 +1401,16 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 				return z.SetMantScale(0, 0)
 			case 10:
 				// Specialized function.
+				if z.unlimited(c) {
+					return z
+				}
 				return c.ln10(z)
 			}
 		}
 	}
+	if z.unlimited(c) {
+		return z
+	}
 
 	// Argument reduction:
 	// Given
@@ -1869,11 +1887,18 @@ func (c Context) NextMinus(z, x *Big) *Big {
 		if x.IsInf(-1) {
 			return z.SetInf(true)
 		}
+		if z.unlimited(c) {
+			return z
+		}
 		m := &z.unscaled
 		maxfor(m, c.precision(), +1)
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	c.OperatingMode = GDA // always round
 	c.RoundingMode = ToNegativeInf
 	conds := z.Context.Conditions
@@ -1900,11 +1925,18 @@ func (c Context) NextPlus(z, x *Big) *Big {
 		if x.IsInf(+1) {
 			return z.SetInf(false)
 		}
+		if z.unlimited(c) {
+			return z
+		}
 		m := &z.unscaled
 		maxfor(m, c.precision(), -1)
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	c.OperatingMode = GDA // always round
 	c.RoundingMode = ToPositiveInf
 	conds := z.Context.Conditions
@@ -1923,6 +1955,9 @@ func (c Context) pi2(z *Big) *Big {
 
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
+	if z.unlimited(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _Pi.get())
 	}
@@ -3020,7 +3055,8 @@ func (c Context) Sqrt(z, x *Big) *Big {
 	}
 	e := 2 * ideal
 	shift := x.exp - e
-	if d := c.precision() + 1 - (x.Precision()+shift+1)/2; d > 0 {
+	d := c.precision() + 1 - (x.Precision()+shift+1)/2
+	if d > 0 && c.precision() != UnlimitedPrecision {
 		shift += 2 * d
 		e -= 2 * d
 	}
@@ -3028,6 +3064,9 @@ func (c Context) Sqrt(z, x *Big) *Big {
 
 	root := z.unscaled.Sqrt(xb)
 	exact := new(big.Int).Mul(root, root).Cmp(xb) == 0
+	if !exact && z.unlimited(c) {
+		return z
+	}
 	z.form = finite
 	z.exp = e / 2
 	z.norm()
@@ -3113,6 +3152,10 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
 		// sin(x) = x - x**3/6 + ...
 		tiny := New(1, c.precision()+2*defaultExtraPrecision-x.adjusted())
@@ -3196,6 +3239,10 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	if z.unlimited(c) {
+		return z
+	}
+
 	if 2*x.adjusted() < -(c.precision() + 2*defaultExtraPrecision) {
 		// tan(x) = x + x**3/3 + ...
 		tiny := New(1, c.precision()+2*defaultExtraPrecision-x.adjusted())
diff --git a/util.go b/util.go
index 7644252..ef84020 100644
--- a/util.go
+++ b/util.go
@@ -139,6 +139,19 @@ func (z *Big) invalidContext(c Context) bool {
 	return true
 }
 
+// unlimited reports whether c's precision is unlimited, in which
+// case it doesn't have room for a number with a non-terminating
+// decimal expansion.
+//
+// If so, it modifies z appropriately.
+func (z *Big) unlimited(c Context) bool {
+	if c.precision() < UnlimitedPrecision {
+		return false
+	}
+	z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, invctxpgtu)
+	return true
+}
+
 // copybits can be useful when we want to allocate a big.Int without calling
 // new or big.Int.Set. For example:
 //
-- 
2.43.0


From d70472d45ed4bd89a28eb4877062c8ceccea2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 42/61] fix: Log10 mistook numbers above 2^64 for powers of ten

---
 internal/arith/pow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/arith/pow.go b/internal/arith/pow.go
index 0c175d6..eeeef0c 100644
--- a/internal/arith/pow.go
+++ b/internal/arith/pow.go
@@ -61,7 +61,7 @@ func PowOfTenBig(x *big.Int) bool {
 	}
 	q := new(big.Int).Set(x)
 	r := new(big.Int)
-	for len := BigLength(x); len > 20; len-- {
+	for len := BigLength(x); len > 19; len-- {
 		q.QuoRem(q, c.TenInt, r)
 		if r.Sign() != 0 {
 			return false
-- 
2.43.0


From 6384ef7132ee44d9a0f543ac2f9b9cd0a6f181da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 43/61] fix: NaN remainders of QuoRem depended on their own
 context

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 4cb0562..7b924f9 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2641,14 +2641,14 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 	// NaN / y
 	// x / NaN
 	if z.checkNaNs(x, y, division) {
-		return z, r.Set(z)
+		return z, r.Copy(z)
 	}
 
 	if x.form&inf != 0 {
 		if y.form&inf != 0 {
 			// ±Inf / ±Inf
 			z.setNaN(InvalidOperation, qnan, quoinfinf)
-			return z, r.Set(z)
+			return z, r.Copy(z)
 		}
 		// ±Inf / y
 		neg := x.Signbit() // in case z == x
-- 
2.43.0


From fc6d62a39912fb6e61d1e9e90dc090a4b979b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 44/61] fix: convert decimals smaller than one with an exponent
 of -20

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index d0896b9..d587c90 100644
--- a/big.go
+++ b/big.go
@@ -1000,7 +1000,7 @@ func (x *Big) Int64() (int64, bool) {
 		return xb.Int64(), xb.IsInt64()
 	}
 
-	if x.exp < -arith.MaxLength {
+	if x.exp <= -arith.MaxLength {
 		// 0 < |x| < 1
 		return 0, true
 	}
@@ -1046,7 +1046,7 @@ func (x *Big) Uint64() (uint64, bool) {
 	if x.exp == 0 {
 		return b, true
 	}
-	if x.exp < -arith.MaxLength {
+	if x.exp <= -arith.MaxLength {
 		// 0 < x < 1
 		return 0, true
 	}
-- 
2.43.0


From 7d1ac2a379f0ca03db25578d673559f360b82a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 45/61] fix: E didn't terminate with more than 300 digits and
 directed rounding

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7b924f9..901302c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -964,8 +964,8 @@ func (c Context) E(z *Big) *Big {
 		prev = new(Big)
 	)
 
-	ctx := c
-	ctx.Precision += 5
+	// The sum doesn't converge if terms are rounded away from zero.
+	ctx := Context{Precision: c.Precision + 5}
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
 		// Use term as our intermediate storage for our
 		// factorial. SetUint64 should be marginally faster than
-- 
2.43.0


From 2f640431fa873a6d6b035a3783943aca11001e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 46/61] fix: Pi and E with 300 digits were neither inexact nor
 rounded by the mode

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 901302c..3f89a3e 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -953,7 +953,7 @@ func (c Context) E(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _E.get())
 	}
 
@@ -1958,7 +1958,7 @@ func (c Context) pi(z *Big) *Big {
 	if z.unlimited(c) {
 		return z
 	}
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Pi.get())
 	}
 	return c.piChudnovskyBrothers(z)
-- 
2.43.0


From de46a8817ee01b6882157fa82b7545487458550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 47/61] fix: Wallis didn't set z if the fraction has only one
 term

---
 continued_frac.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..5ea3b5b 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -87,8 +87,10 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		ctx = c.Context()
 	}
 
+	single := true
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
+		single = false
 
 		z.Copy(a)
 		ctx.FMA(a, a, t.B, ctx.Mul(a_1, a_1, t.A))
@@ -104,6 +106,9 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		}
 		p.Copy(z)
 	}
+	if single {
+		ctx.Set(z, a)
+	}
 	return z
 }
 
-- 
2.43.0


From fbb40d1d0aa5bf8a3d43f728fbea3dba0fcc1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 48/61] fix: Lentz didn't terminate if rounding kept the terms
 from reaching 1

---
 continued_frac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continued_frac.go b/continued_frac.go
index 5ea3b5b..8b1611f 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -225,6 +225,10 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
+	// C_j*D_j might never get closer to 1 than their rounding errors.
+	if least := New(5, ctx.precision()-1); eps.Cmp(least) < 0 {
+		eps = least
+	}
 
 	for g.Next() && f.IsFinite() {
 		t = g.Term()
-- 
2.43.0


From b23ebcf77c788f002b3b01fd44ec7c3942a928cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 49/61] fix: BinarySplit multiplied terms by the wrong values
 of B

---
 binary_spliting.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5e5856f..5715039 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -330,10 +330,6 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// T_2 = A3 * B1 * B2 * P1 * P2 * P3; T_2 is finished.
 		ctx.Mul(t2, t2, s.B /* B12 */)
 
-		// T_1 = A2 * B1 * __ P1 * P2 * __
-		//                 B3           Q3
-		ctx.Mul(t1, t1, B2)
-
 		B3 := B(n3)
 		// T_0 = A1 * B2 * B3 * P1 * __ * __
 		//                           Q2   Q3
@@ -398,16 +394,19 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		ctx.Mul(t3, t3, s.P)     // T_3 needs: B123.
 
 		b1 := new(Big).Copy(B(n1))
-		ctx.Mul(t3, t3, b1)            // T_3 needs: B23.
-		ctx.Mul(t2, t2, b1)            // T_2 needs: B2.
-		ctx.Mul(t1, t1, b1)            // T_1 is finished.
-		s.B.Copy(B(n2))                // B = B2.
-		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 is finished.
-		ctx.Mul(s.B, s.B, B(n3))       // B = B23.
-		ctx.Mul(t3, t3, s.B /* B23 */) // T_3 is finished.
-		ctx.Mul(s.T, s.T, s.B)         // T_0 is finished.
-		ctx.Mul(s.B, s.B, b1)          // B = B123.
-		ctx.Mul(s.B, s.B, B(n4))       // B = B1234.
+		b2 := new(Big).Copy(B(n2))
+		s.B.Copy(B(n4))               // B = B4.
+		ctx.Mul(t2, t2, s.B /* B4 */) // T_2 needs: B12.
+		ctx.Mul(s.B, s.B, B(n3))      // B = B34.
+		ctx.Mul(t1, t1, s.B)          // T_1 needs: B1.
+		ctx.Mul(t1, t1, b1)           // T_1 is finished.
+		ctx.Mul(s.T, s.T, s.B)        // T_0 needs: B2.
+		ctx.Mul(s.T, s.T, b2)         // T_0 is finished.
+		ctx.Mul(b1, b1, b2)           // b1 = B12.
+		ctx.Mul(t2, t2, b1)           // T_2 is finished.
+		ctx.Mul(t3, t3, b1)           // T_3 needs: B3.
+		ctx.Mul(t3, t3, B(n3))        // T_3 is finished.
+		ctx.Mul(s.B, s.B, b1)         // B = B1234.
 
 		ctx.Add(s.T, s.T, t1) // T = T_0 + T_1
 		ctx.Add(s.T, s.T, t2) // T = T_0 + T_1 + T_2
-- 
2.43.0


From 2b5c5bf42d35e44e706df27f355a5db99d2183af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 50/61] fix: BinarySplitDynamic took the default precision for
 zero digits

---
 binary_spliting.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5715039..5f8f110 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -137,7 +137,7 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 	}
 	var expectedLastTerm uint64
 	deltaTerm := uint64(4)
-	eps := New(1, ctx.Precision)
+	eps := New(1, ctx.precision())
 
 	tmp := newState()
 
@@ -172,7 +172,7 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 
 				// next calculate the expectedLastTerm and add 4 to ensure it is always >0
 				scaleDiff := arith.Abs(int64(markValue1.Scale()) - int64(markValue2.Scale()))
-				expectedLastTerm = nextLastTerm + uint64(float64(nextLastTerm-currentLastTerm)*float64(ctx.Precision)/float64(scaleDiff)) + 4
+				expectedLastTerm = nextLastTerm + uint64(float64(nextLastTerm-currentLastTerm)*float64(ctx.precision())/float64(scaleDiff)) + 4
 				currentLastTerm = nextLastTerm
 				break
 			}
@@ -199,7 +199,7 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 				current = next
 
 				// we'll calculate expectedLastTerm but also add 4 to ensure it is always >0
-				expectedLastTerm = nextLastTerm + uint64(float64(nextLastTerm-currentLastTerm)*float64(ctx.Precision)/float64(precChange)) + 4
+				expectedLastTerm = nextLastTerm + uint64(float64(nextLastTerm-currentLastTerm)*float64(ctx.precision())/float64(precChange)) + 4
 				currentLastTerm = nextLastTerm
 				break
 			}
-- 
2.43.0


From ae4ca78afb40a14f2f621812ee40953292f24ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 51/61] fix: Hypot of an infinity raised Inexact and Rounded

---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3f89a3e..418054f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1296,6 +1296,10 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 		return z
 	}
 
+	if p.IsInf(0) || q.IsInf(0) {
+		return z.SetInf(false)
+	}
+
 	ctx := c.work()
 
 	p0 := getDec(ctx)
-- 
2.43.0


From 91fa362c253e175cd67fc91d833c4e6e9b86eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 52/61] fix: subnormal results of trigonometric functions
 didn't always raise Underflow

---
 big_ctx.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 418054f..1e6a9da 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -420,7 +420,7 @@ func (c Context) Asin(z, x *Big) *Big {
 	ctx.Atan(z, z)           //     atan(x / (1 + sqrt(1 - x*x)))
 	ctx.Mul(z, z, two.get()) // 2 * atan(x / (1 + sqrt(1 - x*x)))
 
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 // Atan returns the arctangent, in radians, of x.
@@ -464,7 +464,7 @@ func (c Context) Atan(z, x *Big) *Big {
 		z.CopyNeg(x)          //       -x
 		ctx.Atan(z, z)        //  atan(-x)
 		z.SetSignbit(true)    // -atan(-x)
-		return c.finish(z)
+		return c.finishInexact(z)
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
@@ -492,8 +492,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	case 2:
 		ctx.Sub(z, ctx.pi2(tmp), z) // clobber _2p
 	}
-	z.Context.Conditions |= Inexact | Rounded
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 var sqrt3_3 = New(577350, 6) // sqrt(3) / 3
@@ -671,6 +670,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 			}
 			putDec(pi)
 		}
+		return c.finishInexact(z)
 	}
 	return c.finish(z)
 }
@@ -2922,6 +2922,17 @@ func (c Context) finish(z *Big) *Big {
 	return c.round(z)
 }
 
+// finishInexact is finish for results which are never exact, even
+// if no digits are left to be rounded.
+func (c Context) finishInexact(z *Big) *Big {
+	c.finish(z)
+	z.Context.Conditions |= Inexact | Rounded
+	if z.IsFinite() && z.adjusted() < c.emin() {
+		z.Context.Conditions |= Underflow
+	}
+	return z
+}
+
 // round rounds z to the Context's precision, if necessary.
 func (c Context) round(z *Big) *Big {
 	n := c.precision()
@@ -3172,7 +3183,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !c.sinCos(z, x, true) {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 // Sub sets z to x - y and returns z.
@@ -3264,5 +3275,5 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	ctx.Quo(z, z, tmp)
-	return c.finish(z)
+	return c.finishInexact(z)
 }
-- 
2.43.0


From 178ac6314daab42ced054a7ae8e752b72ffe7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 53/61] fix: Log10 dropped digits of logarithms close to
 integers

---
 big_ctx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1e6a9da..84c8c2c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1364,7 +1364,13 @@ func (c Context) Log10(z, x *Big) *Big {
 		z.SetMantScale(int64(x.adjusted()), 0)
 		return c.finish(z)
 	}
-	return c.finish(c.logContext().log(z, x, true))
+	c.logContext().log(z, x, true)
+	if n := c.precision() - z.Precision(); n > 0 && z.IsFinite() {
+		// z is irrational, even if it's about an integer.
+		c.shiftl(z, uint64(n))
+		z.exp -= n
+	}
+	return c.finish(z)
 }
 
 // logContext returns the Context used to compute a logarithm that
-- 
2.43.0


From 785a10baa1f9ae618dd293aa4d84fff4142bcd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 54/61] fix: subnormal results of powers, logarithms and Exp
 didn't always raise Underflow

---
 big_ctx.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 84c8c2c..f932b3d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1024,7 +1024,7 @@ func (c Context) Exp(z, x *Big) *Big {
 		c.shiftl(z, uint64(s))
 		z.exp -= s
 	}
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 func (c Context) exp(z, x *Big) *Big {
@@ -1334,7 +1334,10 @@ func (c Context) Log(z, x *Big) *Big {
 	if logSpecials(z, x) {
 		return z
 	}
-	return c.finish(c.logContext().log(z, x, false))
+	if c.logContext().log(z, x, false); z.isZero() {
+		return c.finish(z)
+	}
+	return c.finishInexact(z)
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
@@ -1370,7 +1373,10 @@ func (c Context) Log10(z, x *Big) *Big {
 		c.shiftl(z, uint64(n))
 		z.exp -= n
 	}
-	return c.finish(z)
+	if z.isZero() {
+		return c.finish(z)
+	}
+	return c.finishInexact(z)
 }
 
 // logContext returns the Context used to compute a logarithm that
@@ -2166,12 +2172,20 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return c.Sqrt(z, x)
 	}
 
+	conds := z.Context.Conditions
+	z.Context.Conditions = 0
 	if y.IsInt() {
 		c.powInt(z, x, y)
 	} else {
 		c.powDec(z, x, y)
 	}
-	return c.finish(z)
+	if z.Context.Conditions&Inexact != 0 {
+		c.finishInexact(z)
+	} else {
+		c.finish(z)
+	}
+	z.Context.Conditions |= conds
+	return z
 }
 
 // isOdd reports whether x is an odd integer.
@@ -2932,9 +2946,11 @@ func (c Context) finish(z *Big) *Big {
 // if no digits are left to be rounded.
 func (c Context) finishInexact(z *Big) *Big {
 	c.finish(z)
-	z.Context.Conditions |= Inexact | Rounded
-	if z.IsFinite() && z.adjusted() < c.emin() {
-		z.Context.Conditions |= Underflow
+	if z.IsFinite() {
+		z.Context.Conditions |= Inexact | Rounded
+		if !z.isZero() && z.adjusted() < c.emin() {
+			z.Context.Conditions |= Underflow
+		}
 	}
 	return z
 }
-- 
2.43.0


From db1fa8fa5da3be70c8be552e13c4cde8aaa4b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 55/61] fix: Hypot didn't raise Underflow if the square root
 itself needn't be rounded

---
 big_ctx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index f932b3d..1ee7db6 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1301,10 +1301,13 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	}
 
 	ctx := c.work()
+	ctx.Conditions = 0
 
 	p0 := getDec(ctx)
 	ctx.Mul(p0, p, p)
 
+	conds := z.Context.Conditions
+	z.Context.Conditions = 0
 	if p == q {
 		ctx.Sqrt(z, ctx.Add(z, p0, p0))
 	} else {
@@ -1317,6 +1320,11 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	z.Context.Conditions |= p0.Context.Conditions
 	putDec(p0)
 
+	inexact := z.Context.Conditions&Inexact != 0
+	z.Context.Conditions |= conds
+	if inexact {
+		return c.finishInexact(z)
+	}
 	return c.finish(z)
 }
 
-- 
2.43.0


From cc572a62207676f5106540c87311b00762bf7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 56/61] fix: Value gave NaN for decimals whose Context has a
 small range

---
 sql/postgres/decimal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index f00a6a5..c54048d 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -70,6 +70,7 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		v = copyOf(v)
 		v.Context.Precision = decimal.UnlimitedPrecision
+		v.Context.MinScale, v.Context.MaxScale = 0, 0
 		v.Quantize(MaxFractionalDigits)
 	}
 	return v.String(), nil
-- 
2.43.0


From f4b76989b754fb3ef4350d8e5f9e8727fd27dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 57/61] fix: Wallis gave up if a convergent doesn't exist, or
 if the first one is zero

Convergents whose denominator is zero made it return an infinity, and
one whose value is zero was taken for the limit.
---
 continued_frac.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index 8b1611f..12ab51d 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -87,10 +87,10 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		ctx = c.Context()
 	}
 
-	single := true
+	// Convergents whose denominator is zero don't exist.
+	set, prev := false, false
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
-		single = false
 
 		z.Copy(a)
 		ctx.FMA(a, a, t.B, ctx.Mul(a_1, a_1, t.A))
@@ -100,14 +100,18 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		ctx.FMA(b, b, t.B, ctx.Mul(b_1, b_1, t.A))
 		b_1.Copy(z)
 
+		if set = b.Sign() != 0; !set {
+			continue
+		}
 		ctx.Quo(z, a, b)
-		if ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
+		if prev && ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
 		}
 		p.Copy(z)
+		prev = true
 	}
-	if single {
-		ctx.Set(z, a)
+	if !set {
+		ctx.Quo(z, a, b)
 	}
 	return z
 }
-- 
2.43.0


From c210b2fadcb8fa78f5f1cd930e206825d5b38bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 58/61] fix: BinarySplitDynamic did not terminate if it rounds
 away from zero

Rounding every intermediate value up keeps the terms from converging.
---
 binary_spliting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5f8f110..ba61c05 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -116,6 +116,9 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 	//     Q = Q_l*Q_r
 	//     T = B_l*P_l*T_r + B_r*Q_r*T_l
 
+	// If every intermediate value is rounded up the terms might never converge.
+	ctx.RoundingMode = ToNearestEven
+
 	currentLastTerm := uint64(16)
 	current := newState()
 	current.calculate(ctx, 0, currentLastTerm, A, P, B, Q)
-- 
2.43.0


From 637c710f21ef1020f2f1fd8ea7f35446dd494b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 59/61] fix: Log and Log10 of decimals a bit less than 1 lost
 digits at 750 or more digits

---
 big_ctx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1ee7db6..15a0982 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1691,9 +1691,14 @@ func (c Context) logLarge(z, x *Big) int64 {
 		p = int64(-x.Scale() + x.Precision() - 1)
 	}
 
-	// Rescale to 1 <= x < 10
+	// Rescale to 0.4 <= x < 4 so that adding p*log(10) doesn't
+	// cancel the digits of log(x) if x is a bit less than 1.
 	y := new(Big).Copy(x)
 	y.exp = -(x.Precision() - 1)
+	if getmsd(y, 1) >= 4 {
+		y.exp--
+		p++
+	}
 
 	// Continued fraction algorithm is for log(1+x)
 	c.Sub(y, y, one.get())
-- 
2.43.0


From 3da448f4a5035da63a42f5cd98d5acccc68ea116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 60/61] fix: Pow ignored the rounding mode if the result was
 out of the default range

---
 big_ctx.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 15a0982..8f813ec 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2192,6 +2192,16 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	} else {
 		c.powDec(z, x, y)
 	}
+	// x and y are finite and x != 0, so let finish decide what an
+	// overflow or an underflow results in, as it does for Exp.
+	switch neg := z.Signbit(); {
+	case z.IsInf(0):
+		z.SetMantScale(1, -c.emax()-1).SetSignbit(neg)
+		z.Context.Conditions = Inexact
+	case z.isZero():
+		z.SetMantScale(1, 1-c.etiny()).SetSignbit(neg)
+		z.Context.Conditions = Inexact
+	}
 	if z.Context.Conditions&Inexact != 0 {
 		c.finishInexact(z)
 	} else {
-- 
2.43.0


From 223a439b9ed173db9e4ada5a65d4711269eb631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 61/61] fix: Acos didn't raise Underflow if the arccosine
 needn't be rounded

The arccosine of 1 - 2*10**-26 is 2*10**-13 to 26 digits, so nothing was
rounded when it was found to be subnormal. Likewise for Cos.
---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 8f813ec..edbc3f4 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -361,7 +361,7 @@ func (c Context) Acos(z, x *Big) *Big {
 	ctx.Atan(z, z)
 	ctx.Mul(z, z, two.get())
 	putDec(tmp)
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 // Asin returns the arcsine, in radians, of x.
@@ -758,7 +758,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	if !c.sinCos(z, x, false) {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
-	return c.finish(z)
+	return c.finishInexact(z)
 }
 
 // sinCos sets z to the sine or cosine of x, which is finite and
-- 
2.43.0

