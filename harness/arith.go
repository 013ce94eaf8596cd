package main

import (
	"math/big"
	"time"
)

type opInfo struct {
	arity int    // operands x, y, u
	via   string // ways of calling it
	place bool   // operates on z in place
}

var opTable = map[string]opInfo{
	"Add": {2, "mc", false}, "Sub": {2, "mc", false}, "Mul": {2, "mc", false},
	"Quo": {2, "mc", false}, "QuoInt": {2, "mc", false}, "Rem": {2, "mc", false},
	"FMA": {3, "mc", false}, "QuoRem": {2, "mc", false},
	"Abs": {1, "mc", false}, "Neg": {1, "mc", false}, "Set": {1, "mc", false},
	"Sqrt": {1, "cf", false}, "Floor": {1, "cf", false}, "Ceil": {1, "cf", false},
	"NextPlus": {1, "cf", false}, "NextMinus": {1, "cf", false},
	"Exp": {1, "cf", false}, "Log": {1, "cf", false}, "Log10": {1, "cf", false},
	"Sin": {1, "cf", false}, "Cos": {1, "cf", false}, "Tan": {1, "cf", false},
	"Asin": {1, "cf", false}, "Acos": {1, "cf", false}, "Atan": {1, "cf", false},
	"Pow": {2, "cf", false}, "Atan2": {2, "cf", false}, "Hypot": {2, "cf", false},
	"Pi": {0, "cf", false}, "E": {0, "cf", false},
	"Quantize": {0, "mc", true}, "RoundToInt": {0, "mc", true}, "Round": {0, "mc", true},
	"Reduce": {0, "mc", true}, "SetRat": {0, "mc", false}, "CheckNaNs": {2, "m", false},
}

// near returns a number whose digits beyond the first p are a tie, nearly a tie,
// or nearly nothing.
func (g *gen) near(p int) (x *big.Int, n int) {
	if p >= far {
		p = 1 + g.Intn(30)
	}
	n = 1 + g.Intn(4)
	if g.pct(30) {
		n = g.pick(1, 10, 15, 18, 19, 20, 21, 25, 38, 40)
	}
	if g.pct(8) {
		n = 100 + g.Intn(150)
	}
	k := g.digits(p)
	if g.pct(25) {
		k = add(pow10(p), -1) // carries
	}
	if b := g.boundary(); p >= 19 && p <= 60 && g.pct(20) {
		// around the ends of the compact coefficients
		if len(b.String()) != p {
			return b, 0
		}
		k = b
	}
	x = mul(k, pow10(n))
	h := mul(big5, pow10(n-1))
	switch g.Intn(7) {
	case 0, 1:
		x.Add(x, h)
	case 2:
		x.Add(x, add(h, 1))
	case 3:
		x.Add(x, add(h, -1))
	case 4:
		x.Add(x, big1)
	case 5:
		x.Add(x, add(pow10(n), -1))
	}
	return x, n
}

// apart returns two numbers, the first with exponent e, such that the leading digit of the second is
// about p digits after that of the first.
func (g *gen) apart(e, p int) (x, y value) {
	if p >= far {
		p = 20
	}
	k := g.digits(1 + g.Intn(p+1))
	switch g.Intn(4) {
	case 0, 1:
		k = pow10(g.Intn(p + 2))
		if g.coin() == 0 {
			k = mul(k, big.NewInt(int64(1+g.Intn(9))))
		}
	case 2:
		k = add(pow10(1+g.Intn(p+1)), -1)
	}
	x = fin(g.sign(k), e)
	t := g.digits(1 + g.Intn(3))
	switch g.Intn(4) {
	case 0:
		t = big.NewInt(int64(g.pick(1, 5, 49, 50, 51, 9, 99)))
	case 1:
		t = mul(t, pow10(g.Intn(25)))
	}
	adj := e + len(k.String()) - 1 - p + g.Intn(6) - 3
	y = fin(g.sign(t), adj-len(t.String())+1)
	return x, y
}

// place chooses the exponent of a result with d digits.
func (g *gen) place(c []int, d int) int { return g.exponent(c, d) }

// operands returns operands of op for which rounding to the context c is delicate.
func (g *gen) operands(op string, c []int) (x, y, u value) {
	p := prec(c)
	x, y, u = g.value(c), g.value(c), g.value(c)
	ndig := func(v *big.Int) int { return len(v.String()) }
	// split returns s*10^e as a sum of two values
	split := func(s *big.Int, e int) (value, value) {
		var a *big.Int
		switch g.Intn(5) {
		case 0: // the tail
			n := g.Intn(ndig(s) + 1)
			a = new(big.Int).Rem(s, pow10(n))
		case 1: // cancellation
			a = g.sign(mul(g.digits(1+g.Intn(10)), pow10(ndig(s)+g.Intn(4))))
		case 2:
			a = g.sign(g.digits(1 + g.Intn(ndig(s)+2)))
		case 3:
			a = g.sign(big.NewInt(int64(g.Intn(3))))
		case 4: // one part fits a word, the other doesn't
			a = g.sign(g.coefficient(p))
		}
		b := new(big.Int).Sub(s, a)
		va, vb := fin(a, e), fin(b, e)
		// strip zeros so that exponents differ
		strip := func(v *value) {
			if v.c.Sign() == 0 {
				v.e += g.Intn(5)
				return
			}
			q, r := new(big.Int), new(big.Int)
			for g.pct(97) {
				q.QuoRem(v.c, big10, r)
				if r.Sign() != 0 {
					return
				}
				v.c = new(big.Int).Set(q)
				v.e++
			}
		}
		strip(&va)
		strip(&vb)
		if g.coin() == 0 {
			va, vb = vb, va
		}
		return va, vb
	}
	switch op {
	case "Add", "Sub":
		switch g.Intn(6) {
		case 0, 1, 2, 3:
			s, n := g.near(p)
			s = g.sign(s)
			x, y = split(s, g.place(c, ndig(s))-n*g.coin())
		case 4: // far apart: a large number and a tail that is only felt
			k := g.digits(g.pickDigits(p))
			x = fin(g.sign(k), g.place(c, ndig(k)))
			gap := p - ndig(k) + g.Intn(8) - 2
			if g.pct(30) {
				gap = g.pick(18, 19, 20, 21, 38, 40, 200, 1000, 3000)
			}
			t := g.digits(g.pickDigits(p))
			y = fin(g.sign(t), x.e-gap-ndig(t)*g.coin())
			if g.coin() == 0 {
				x, y = g.apart(x.e, p)
			}
			if g.coin() == 0 {
				x, y = y, x
			}
		case 5: // nearly equal
			k := g.coefficient(p)
			x = fin(k, g.place(c, ndig(k)))
			y = fin(new(big.Int).Neg(add(k, int64(g.Intn(3)-1))), x.e)
			if g.coin() == 0 {
				n := g.Intn(22)
				y.c = mul(y.c, pow10(n))
				y.e -= n
				if g.coin() == 0 {
					y.c = add(y.c, int64(g.Intn(3)))
				}
			}
			if g.coin() == 0 {
				x, y = y, x
			}
			if g.coin() == 0 {
				x.s, y.s = 1-x.s, 1-y.s
			}
		}
		if op == "Sub" {
			y.s = 1 - y.s
		}
	case "Mul":
		s, n := g.near(p)
		if n == 0 && g.coin() == 0 { // 2^64-1 has many factors
			s = new(big.Int).SetUint64(1<<64 - 1)
		}
		f := big.NewInt(int64(g.pick(1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 20, 25, 32, 50, 64, 100, 125, 1000, 1<<20, 1<<32)))
		if g.pct(20) {
			f = g.coefficient(p)
			if f.Sign() == 0 {
				f = big1
			}
		}
		if n == 0 && g.pct(80) {
			f = big.NewInt(int64(g.pick(3, 5, 15, 17, 255, 257, 641, 65537, 6700417, 1<<32-1, 1<<32+1)))
		}
		q, r := new(big.Int).QuoRem(s, f, new(big.Int))
		if r.Sign() != 0 && g.pct(50) {
			s = mul(s, f)
			q = new(big.Int).Quo(s, f)
		}
		e := g.place(c, ndig(s)) - n*g.coin()
		k := g.exponent(opts0ctx, 1)
		x, y = fin(g.sign(q), e-k), fin(g.sign(f), k)
		if g.coin() == 0 {
			x, y = y, x
		}
	case "FMA":
		switch g.Intn(4) {
		case 0, 1:
			s, n := g.near(p)
			s = g.sign(s)
			e := g.place(c, ndig(s)) - n*g.coin()
			a, b := g.sign(g.coefficient(p)), g.sign(g.coefficient(p))
			if g.pct(60) {
				a, b = g.sign(g.digits(1+g.Intn(12))), g.sign(g.digits(1+g.Intn(12)))
			}
			k := g.Intn(7) - 3
			x, y = fin(a, e+k), fin(b, -k)
			u = fin(new(big.Int).Sub(s, mul(a, b)), e)
		case 2: // the product is far away
			u.e = x.e + y.e + g.pick(1, -1)*g.Intn(2*mini(p, 60)+30)
			if g.coin() == 0 {
				x, u = g.apart(g.exponent(c, 1), p)
				if g.coin() == 0 {
					x, u = u, x
				}
				k := g.Intn(7) - 3
				y = fin(g.sign(big1), k)
				x.e -= k
			}
		case 3: // cancellation
			a, b := g.sign(g.coefficient(p)), g.sign(g.coefficient(p))
			m := mul(a, b)
			x, y = fin(a, g.Intn(9)-4), fin(b, g.Intn(9)-4)
			u = fin(add(new(big.Int).Neg(m), int64(g.Intn(3)-1)), x.e+y.e)
		}
	case "Quo", "SetRat":
		switch g.Intn(5) {
		case 0, 1: // the quotient is known
			s, n := g.near(p)
			d := g.coefficient(p)
			if g.coin() == 0 {
				d = g.digits(1 + g.Intn(5))
			}
			if d.Sign() == 0 {
				d = big1
			}
			a := mul(s, d)
			if g.coin() == 0 {
				a = add(a, int64(g.Intn(3)-1))
			}
			k := g.Intn(9) - 4
			e := g.place(c, ndig(s)) - n*g.coin()
			x, y = fin(g.sign(a), e+k), fin(g.sign(d), k)
		case 2: // exact, from powers of two and five
			a := g.digits(1 + g.Intn(mini(p, 40)))
			d := new(big.Int).Exp(big.NewInt(int64(g.pick(2, 5, 4, 10, 20))), big.NewInt(int64(g.Intn(40))), nil)
			x, y = fin(g.sign(a), g.place(c, ndig(a))), fin(g.sign(d), g.Intn(9)-4)
		case 3: // powers of ten
			x = fin(g.sign(mul(big.NewInt(int64(1+g.Intn(9))), pow10(g.Intn(25)))), g.place(c, 1))
			y = fin(g.sign(mul(big.NewInt(int64(1+g.Intn(9))), pow10(g.Intn(25)))), g.Intn(9)-4)
		}
	case "QuoInt", "Rem", "QuoRem":
		switch g.Intn(6) {
		case 0, 1: // a quotient about as long as the precision
			q := g.digits(maxi(1, mini(p, 60)-2+g.Intn(4)))
			d := g.coefficient(p)
			if g.coin() == 0 {
				d = g.digits(1 + g.Intn(6))
			}
			if d.Sign() == 0 {
				d = big1
			}
			a := mul(q, d)
			if g.coin() == 0 {
				a = add(a, int64(g.Intn(3)-1))
			} else {
				a = a.Add(a, new(big.Int).Rand(g.Rand, d))
			}
			e := g.Intn(9) - 4
			x, y = fin(g.sign(a), e), fin(g.sign(d), e)
			if g.coin() == 0 {
				n := g.Intn(12)
				y.c, y.e = mul(y.c, pow10(n)), y.e-n
			}
			if g.pct(30) {
				n := g.Intn(22)
				x.c, x.e = mul(x.c, pow10(n)), x.e-n
			}
		case 2: // exponents that differ by about the precision
			x.e = y.e + mini(p, 60) + g.Intn(7) - 3
		case 3: // |x| < |y|
			y.e = x.e + g.pick(0, 1, 5, 18, 19, 20, 30, 100)
		case 4:
			y.e = x.e - g.Intn(25)
		}
		if g.pct(12) { // quotient or remainder around the ends of the compact coefficients
			b := g.boundary()
			d := g.digits(1 + g.Intn(24))
			if g.coin() == 0 {
				x.c = new(big.Int).Add(mul(b, d), new(big.Int).Rand(g.Rand, d))
			} else {
				for d.Cmp(b) <= 0 {
					d = mul(d, big.NewInt(1000))
				}
				x.c = new(big.Int).Add(b, mul(d, big.NewInt(int64(g.Intn(12)))))
			}
			x.k, y = 0, fin(g.sign(d), x.e)
		}
	case "Sqrt":
		x.s = 0
		if g.pct(5) {
			x.s = 1
		}
		pp := mini(p, 60)
		switch g.Intn(6) {
		case 0, 1: // a square, or next to one
			r := g.digits(maxi(1, pp-3+g.Intn(5)))
			x.c = add(mul(r, r), int64(g.Intn(3)-1))
			x.e = 2 * (g.Intn(9) - 4)
		case 2: // the square of a tie
			r := add(mul(g.digits(pp), big10), 5)
			x.c = new(big.Int).Abs(add(mul(r, r), int64(g.Intn(3)-1)))
			x.e = 2 * (g.Intn(9) - 4)
		case 3: // nines and ones
			n := 1 + g.Intn(2*pp+4)
			x.c = new(big.Int).Abs(add(pow10(n), int64(g.Intn(5)-2)))
		case 4: // the ends of the range
			x.e = 2*g.exponent(c, 1) + g.coin()
		case 5:
			r := g.boundary()
			x.c = add(mul(r, r), int64(g.Intn(3)-1))
			x.e = 2 * (g.Intn(9) - 4)
		}
	case "NextPlus", "NextMinus":
		pp := mini(p, 60)
		switch g.Intn(5) {
		case 0:
			x.c = new(big.Int).Abs(add(pow10(maxi(1, pp-2+g.Intn(5))), int64(g.Intn(3)-1)))
		case 1:
			s, n := g.near(p)
			x.c = s
			x.e = g.place(c, ndig(s)) - n
		case 2: // ends of the range
			if c[4] != 0 && c[4] < far {
				x.c = add(pow10(pp), int64(-1-g.Intn(2)))
				x.e = emax(c) - pp + 1
			}
		case 3:
			if c[3] != 0 && c[3] > -far {
				x.c = big.NewInt(int64(g.Intn(12)))
				x.e = etiny(c) + g.Intn(4) - 2
			}
		}
	default: // unary operations that round
		switch g.Intn(3) {
		case 0, 1:
			s, n := g.near(p)
			x = fin(g.sign(s), g.place(c, ndig(s))-n*g.coin())
		}
		if op == "Floor" || op == "Ceil" || op == "RoundToInt" {
			if g.coin() == 0 {
				x.e = -g.Intn(ndig(x.c) + 3)
			}
		}
	}
	lim := func(v *value) {
		if v.e > 1000000 || v.e < -1000000 {
			v.e %= 1000
		}
	}
	lim(&x)
	lim(&y)
	lim(&u)
	return x, y, u
}

var opts0ctx = []int{9, 0, 0, 0, 0}

func (g *gen) pickDigits(p int) int {
	if p >= far {
		p = 30
	}
	return g.pick(1, 1+g.Intn(p), p, p+1, 17+g.Intn(5), 1+g.Intn(45))
}

// quantizeScale chooses a scale for Quantize.
func (g *gen) quantizeScale(c []int, o *Reg) int {
	d := o.Pr
	switch g.Intn(8) {
	case 0: // drops about all digits
		return -(o.E + d + g.Intn(5) - 3)
	case 1, 2: // drops some
		return -(o.E + g.Intn(d+1))
	case 3: // appends to about the precision
		return -(o.E - (mini(prec(c), 80) - d) + g.Intn(5) - 2)
	case 4:
		return -o.E
	case 5:
		if c[3] != 0 && etiny(c) > -far/2 {
			return -(etiny(c) + g.Intn(3) - 1)
		}
	case 6:
		if c[4] != 0 && emax(c) < far/2 {
			return -(emax(c) + g.Intn(3) - 1)
		}
	}
	return g.Intn(61) - 30
}

// huge reports whether executing an operation would take forever with any library.
func huge(op string, c []int, rs ...*Reg) bool {
	lo, hi, big := 1<<60, -1<<60, 0
	for _, r := range rs {
		if r.K == 0 {
			lo, hi = mini(lo, r.E), maxi(hi, r.E)
			big = maxi(big, r.Pr)
		}
	}
	if lo > hi {
		return false
	}
	exact := c[2] == 1 || prec(c) >= far
	switch op {
	case "QuoInt", "Rem", "QuoRem", "FMA":
		return hi-lo > 12000 || big > 3000
	case "Sqrt":
		return hi > 100000 || big > 3000
	}
	return exact && (hi-lo > 12000 || big > 3000) || big > 20000
}

// arith executes one arithmetic operation on registers of its choice.
func (g *gen) arith(op string) *Event {
	info := opTable[op]
	z := g.reg()
	e := Event{O: op, Z: z}
	vias := info.via
	e.V = string(vias[g.Intn(len(vias))])
	x, y, u := 0, 0, 0
	if info.arity > 0 {
		if g.pct(g.o.alias) && op != "QuoRem" {
			x = z
		} else {
			x = g.regNot(z)
		}
	}
	if info.arity > 1 {
		switch {
		case g.pct(g.o.alias) && op != "QuoRem":
			y = z
		case g.pct(g.o.alias):
			y = x
		default:
			y = g.regNot(z, x)
		}
	}
	if info.arity > 2 {
		switch {
		case g.pct(g.o.alias):
			u = z
		case g.pct(g.o.alias):
			u = g.pick(x, y)
		default:
			u = g.regNot(z, x, y)
		}
	}
	if op == "QuoRem" { // the remainder's register
		u = g.regNot(z)
		if !g.pct(g.o.alias) {
			u = g.regNot(z, x, y)
		}
	}
	if g.pct(20) && e.V != "c" && x != z && y != z && u != z && !info.place { // a new context
		g.loadAny(z, g.context())
	}
	c := g.obsCtx(z)
	if e.V == "c" {
		m := c[2]
		c = g.context()
		if m <= 1 && c[2] <= 1 {
			c[2] = m
		}
		e.Cx = c
	}
	e.X, e.Y, e.U = x, y, u
	if info.place {
		if g.pct(g.o.rel) {
			s, n := g.near(prec(c))
			v := fin(g.sign(s), g.place(c, len(s.String()))-n*g.coin())
			g.load(z, v, g.obsCtx(z), g.how(), g.conds(), g.traps())
		} else if g.coin() == 0 {
			g.loadAny(z, g.obsCtx(z))
		}
		switch op {
		case "Quantize":
			e.A = []int{g.quantizeScale(c, &g.m.obs[z])}
		case "Round":
			if e.V == "m" {
				e.A = []int{g.pick(0, -1, 1, 2, 3, 5, 9, 16, 19, 20, 34)}
				if g.coin() == 0 {
					e.A[0] = maxi(0, g.m.obs[z].Pr-g.Intn(4))
				}
			}
		case "Reduce":
			o := &g.m.obs[z]
			if o.K == 0 && g.pct(60) {
				v := fin(mul(decBig(o.C), pow10(g.Intn(25))), o.E)
				g.load(z, v, g.obsCtx(z), g.how(), g.conds(), g.traps())
			}
		}
	} else if op == "SetRat" {
		a, b, _ := g.operands(op, c)
		for b.c.Sign() == 0 {
			b.c = g.coefficient(prec(c))
		}
		n := new(big.Int).Set(a.c)
		if a.s == 1 {
			n.Neg(n)
		}
		e.B = [][]int{encBig(n), encBig(b.c)}
	} else if info.arity > 0 {
		if g.pct(g.o.rel) {
			vx, vy, vu := g.operands(op, c)
			g.load(x, vx, g.obsCtx(x), g.how(), g.conds(), g.traps())
			if y != 0 && y != x {
				g.load(y, vy, g.obsCtx(y), g.how(), g.conds(), g.traps())
			}
			if info.arity > 2 && u != x && u != y {
				g.load(u, vu, g.obsCtx(u), g.how(), g.conds(), g.traps())
			}
		} else {
			for _, i := range []int{x, y, u} {
				if i != 0 && g.pct(40) && !(op == "QuoRem" && i == u) {
					g.load(i, g.value(c), g.obsCtx(i), g.how(), g.conds(), g.traps())
				}
			}
		}
		var rs []*Reg
		for _, i := range []int{x, y, u} {
			if i != 0 && !(op == "QuoRem" && i == u) {
				rs = append(rs, &g.m.obs[i])
			}
		}
		if huge(op, c, rs...) {
			for _, i := range []int{x, y, u} {
				if i != 0 {
					g.load(i, g.value(opts0ctx), g.obsCtx(i), g.how(), g.conds(), g.traps())
				}
			}
		}
	}
	p := g.do(e)
	g.tame(z)
	if op == "QuoRem" {
		g.tame(u)
	}
	return p
}

// begin loads all registers.
func (g *gen) begin() {
	for i := 1; i <= nRegs; i++ {
		if g.pct(85) {
			g.loadAny(i, g.context())
		}
	}
}

// arithSuite makes histories of arithmetic operations.
func arithSuite(name string, o opts) suiteFunc {
	if o.events == 0 {
		o.events = 40
	}
	return func(seed int64, traces int, until time.Time) {
		for i := 0; i < traces && time.Now().Before(until); i++ {
			g := &gen{newRand(seed, name, i), newTracer(), o}
			g.begin()
			for len(g.tr) < o.events {
				g.arithAny()
				if g.pct(8) {
					g.do(Event{O: "Err", Z: g.reg()})
				}
				if g.pct(8) {
					g.do(Event{O: "Preds", X: g.reg()})
				}
			}
			g.emit()
		}
	}
}

var suites = map[string]suiteFunc{}

func init() {
	addS := func(name string, o opts) { suites[name] = arithSuite(name, o) }
	addS("P01", opts{ops: []string{"Add", "Sub", "Mul", "FMA"}, special: 2, zero: 5, rng: 10, alias: 6, unl: 3, rel: 75, wide: 20})
	addS("P02", opts{ops: []string{"Quo"}, special: 2, zero: 3, rng: 10, alias: 5, unl: 6, rel: 80, wide: 10})
	addS("P03", opts{ops: []string{"QuoInt", "Rem", "QuoRem"}, special: 4, zero: 6, rng: 10, alias: 8, unl: 4, rel: 75, wide: 10})
	addS("P04", opts{ops: []string{"Sqrt"}, special: 3, zero: 4, rng: 15, alias: 10, unl: 4, rel: 80, wide: 10})
	addS("P05", opts{ops: []string{"Quantize", "Quantize", "RoundToInt", "Floor", "Ceil", "Round", "Set"}, special: 3, zero: 6, rng: 20, alias: 10, unl: 4, rel: 60, wide: 5})
}
