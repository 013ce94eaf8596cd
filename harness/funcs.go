package main

import (
	"math"
	"math/big"
	"sync"
	"time"
)

var (
	expOps   = []string{"Exp", "Log", "Log10", "Pow"}
	trigOps  = []string{"Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot"}
	constOps = []string{"Pi", "E"}
	funcOps  []string
	isFunc   = map[string]bool{}
)

func init() {
	for _, l := range [][]string{expOps, trigOps, constOps} {
		for _, o := range l {
			isFunc[o] = true
			funcOps = append(funcOps, o)
		}
	}
}

// arcInv is atan(1/q), or atanh, times 10^n.
func arcInv(q int64, sign int64, n int) *big.Int {
	t := new(big.Int).Quo(pow10(n), big.NewInt(q))
	sum := new(big.Int).Set(t)
	q2 := big.NewInt(q * q)
	for k, s := int64(3), sign; t.Sign() != 0; k, s = k+2, s*sign {
		t.Quo(t, q2)
		v := new(big.Int).Quo(t, big.NewInt(k))
		if s < 0 {
			sum.Sub(sum, v)
		} else {
			sum.Add(sum, v)
		}
	}
	return sum
}

const constDigits = 200

var constants = struct {
	sync.Once
	pi, ln10 *big.Int // times 10^constDigits
}{}

func piLn10() (pi, ln10 *big.Int) {
	c := &constants
	c.Do(func() {
		n := constDigits
		c.pi = mul(big.NewInt(4), new(big.Int).Sub(mul(big.NewInt(4), arcInv(5, -1, n)), arcInv(239, -1, n)))
		c.ln10 = mul(big.NewInt(46), arcInv(31, 1, n))
		c.ln10.Add(c.ln10, mul(big.NewInt(34), arcInv(49, 1, n)))
		c.ln10.Add(c.ln10, mul(big.NewInt(20), arcInv(161, 1, n)))
	})
	return c.pi, c.ln10
}

// rounded returns x*10^e rounded to n digits, and then a bit up or down.
func (g *gen) rounded(x *big.Int, e, n int) value {
	d := len(new(big.Int).Abs(x).String())
	if d > n {
		x = new(big.Int).Quo(x, pow10(d-n))
		e += d - n
	}
	if g.coin() == 0 {
		x = add(x, int64(g.Intn(5)-2))
	}
	return fin(x, e)
}

// someDigits is the length of an operand.
func (g *gen) someDigits(p int) int {
	switch g.Intn(6) {
	case 0, 1:
		return 1 + g.Intn(4)
	case 2:
		return p
	case 3:
		return p + 1 + g.Intn(5)
	case 4:
		return 1 + g.Intn(30)
	}
	return 1 + g.Intn(p+10)
}

// near1 returns a number close to 1.
func (g *gen) near1(p int) value {
	n := 1 + g.Intn(g.pick(3, 10, p, 2*p+5))
	d := big.NewInt(int64(1 + g.Intn(g.pick(1, 9, 1000))))
	if g.coin() == 0 {
		d.Neg(d)
	}
	x := new(big.Int).Add(pow10(n), d)
	if x.Sign() <= 0 {
		x = big1
	}
	return fin(x, -n)
}

// size chooses a number with a leading digit of weight 10^adj.
func (g *gen) size(p, adj int) value {
	d := g.someDigits(p)
	return fin(g.digits(d), adj-d+1)
}

func (g *gen) signed(v value) value { v.s = g.coin(); return v }

// funcOperands returns operands of the function op, for which the context c is delicate.
func (g *gen) funcOperands(op string, c []int) (x, y value) {
	p := prec(c)
	if p >= far {
		p = 1 + g.Intn(30)
	}
	if p > 300 {
		p = 300
	}
	x, y = g.value(c), g.value(c)
	pi, ln10 := piLn10()
	switch op {
	case "Exp":
		if g.pct(4) {
			return g.signed(g.size(p, g.pick(9, 18, 19, 20, 25, 100))), y
		}
		switch g.Intn(9) {
		case 0, 1:
			return g.signed(g.size(p, g.Intn(4)-2)), y
		case 2:
			return g.signed(g.size(p, g.Intn(10)-4)), y
		case 3: // tiny
			return g.signed(g.size(p, -g.Intn(p+12))), y
		case 4: // near a power of ten
			k := g.Intn(40) - 20
			return g.rounded(mul(ln10, big.NewInt(int64(k))), -constDigits, g.someDigits(p)), y
		case 5:
			return fin(g.sign(big.NewInt(int64(g.Intn(g.pick(3, 20, 1000))))), 0), y
		case 6: // next to 0.5*10^-k
			return g.signed(fin(add(mul(big5, pow10(10)), int64(g.Intn(3)-1)), -p-g.Intn(4)-10)), y
		case 7, 8: // the ends of the range
			k := 0
			if g.coin() == 0 && c[4] != 0 && c[4] < far {
				k = emax(c) + g.Intn(4) - 1
			} else if c[3] != 0 && c[3] > -far {
				k = g.pick(emin(c), etiny(c)) + g.Intn(4) - 2
			} else {
				k = g.Intn(2000) - 1000
			}
			return g.rounded(mul(ln10, big.NewInt(int64(k))), -constDigits, g.someDigits(p)), y
		}
	case "Log", "Log10":
		switch g.Intn(9) {
		case 0, 1:
			return g.near1(p), y
		case 2:
			return g.size(p, g.Intn(5)-2), y
		case 3:
			return g.size(p, g.Intn(2*p+1)-p), y
		case 4: // next to a power of ten
			v := g.near1(p)
			v.e += g.Intn(41) - 20
			return v, y
		case 5:
			return fin(big.NewInt(int64(g.Intn(g.pick(3, 12, 1000)))), 0), y
		case 6:
			return fin(mul(pow10(g.Intn(25)), big.NewInt(int64(g.pick(1, 1, 2, 9)))), g.exponent(c, 1)%100000), y
		case 7: // about 10^(10^k)
			return g.size(p, g.pick(1, -1)*(g.pick(9, 10, 99, 100, 999, 1000, 9999, 10000, 100000)+g.Intn(3)-1)), y
		case 8:
			return fin(g.coefficient(p), g.Intn(61)-30), y
		}
	case "Pow":
		x = g.size(p, g.Intn(5)-2)
		if g.pct(20) {
			x = g.near1(p)
		}
		if g.pct(20) {
			x = fin(big.NewInt(int64(2+g.Intn(20))), g.Intn(7)-3)
		}
		switch g.Intn(8) {
		case 0, 1: // small powers
			y = fin(g.sign(big.NewInt(int64(g.Intn(g.pick(4, 12, 60))))), 0)
			x.s = g.coin()
		case 2:
			y = g.signed(g.size(p, g.Intn(4)-2))
		case 3:
			y = fin(g.sign(big.NewInt(int64(g.Intn(400)))), -g.Intn(3))
		case 4: // large powers of numbers near 1
			x = g.near1(p)
			y = fin(g.sign(g.digits(1+g.Intn(mini(12, -x.e+3)))), 0)
			x.s = g.coin()
		case 5: // the other way round: x^y is about 10^k
			k := g.Intn(30) - 15
			if c[4] != 0 && c[4] < 10000 && g.coin() == 0 {
				k = emax(c) + g.Intn(3) - 1
			} else if c[3] > -10000 && c[3] != 0 && g.coin() == 0 {
				k = g.pick(emin(c), etiny(c)) + g.Intn(3) - 1
			}
			f, _ := new(big.Float).SetInt(x.c).Float64()
			l := math.Log10(f) + float64(x.e)
			if l > 1e-3 || l < -1e-3 {
				q := new(big.Int)
				new(big.Float).SetFloat64(float64(k) / l * 1e15).Int(q)
				if q.BitLen() < 200 {
					y = g.rounded(q, -15, 1+g.Intn(16))
				}
			}
		case 6: // a square root, or nearly
			y = fin(big.NewInt(int64(g.pick(5, 50, 500, 499, 501))), 0)
			y.e = 1 - len(y.c.String()) - 1
			r := g.digits(1 + g.Intn(p))
			if g.coin() == 0 {
				x = fin(add(mul(r, r), int64(g.Intn(3)-1)), 2*(g.Intn(5)-2))
			}
		case 7: // roots that exist
			b := g.digits(1 + g.Intn(4))
			q := g.pick(2, 4, 5, 8)
			x = fin(new(big.Int).Exp(b, big.NewInt(int64(q)), nil), 0)
			y = fin(g.sign(big.NewInt(int64(g.pick(1, 3, 5)*1000/q))), -3)
		}
		if g.pct(3) { // too large or too small for all ranges
			y = g.signed(g.size(p, g.pick(19, 21, 30, 100)))
			if g.coin() == 0 {
				y = fin(mul(y.c, big.NewInt(10)), maxi(0, y.e-1))
			}
		}
		if g.pct(3) {
			x.s = 1
		}
		return x, y
	case "Sin", "Cos", "Tan":
		switch g.Intn(8) {
		case 0, 1:
			return g.signed(g.size(p, g.Intn(3)-1)), y
		case 2: // tiny
			return g.signed(g.size(p, -g.Intn(p+12))), y
		case 3, 4, 5: // near a multiple of pi/2
			k := big.NewInt(int64(1 + g.Intn(12)))
			if g.coin() == 0 {
				k = g.digits(1 + g.Intn(18))
			}
			return g.signed(g.rounded(mul(pi, k), -constDigits, g.someDigits(p)+len(k.String())-1).half()), y
		case 6: // large
			return g.signed(g.size(p, g.Intn(19))), y
		case 7: // near a multiple of pi/4 or pi/6
			k := mul(pi, big.NewInt(int64(1+g.Intn(9))))
			k.Quo(k, big.NewInt(int64(g.pick(3, 4, 6))))
			return g.signed(g.rounded(k, -constDigits, g.someDigits(p))), y
		}
	case "Asin", "Acos":
		switch g.Intn(6) {
		case 0:
			x = g.size(p, -1)
		case 1:
			x = g.size(p, -g.Intn(p+12))
		case 2, 3:
			x = g.near1(p)
		case 4:
			x = fin(new(big.Int).Sqrt(pow10(2*constDigits)), -constDigits)
			x.c = new(big.Int).Sqrt(mul(pow10(2*constDigits), big.NewInt(int64(g.pick(2, 3)))))
			x.c.Quo(x.c, big2)
			x = g.rounded(x.c, -constDigits, g.someDigits(p))
		case 5:
			x = fin(big.NewInt(int64(g.Intn(100))), -2)
		}
		return g.signed(x), y
	case "Atan":
		switch g.Intn(6) {
		case 0:
			x = g.size(p, g.Intn(4)-2)
		case 1:
			x = g.size(p, -g.Intn(p+12))
		case 2:
			x = g.size(p, g.Intn(2*p+12))
		case 3:
			x = g.near1(p)
		case 4:
			s3 := new(big.Int).Sqrt(mul(pow10(2*constDigits), big.NewInt(3)))
			if g.coin() == 0 {
				s3.Quo(s3, big.NewInt(3))
			}
			x = g.rounded(s3, -constDigits, g.someDigits(p))
		case 5:
			x = fin(big.NewInt(int64(g.Intn(200))), -g.Intn(4))
		}
		return g.signed(x), y
	case "Atan2":
		x = g.size(p, g.Intn(5)-2)
		switch g.Intn(5) {
		case 0, 1:
			y = g.size(p, g.Intn(5)-2)
		case 2:
			y = g.size(p, g.Intn(2*p+30)-p-15)
		case 3:
			y = x
			y.c = add(y.c, int64(g.Intn(3)))
		case 4:
			y = fin(big.NewInt(int64(g.Intn(10))), 0)
		}
		return g.signed(x), g.signed(y)
	case "Hypot":
		x = g.size(p, g.Intn(9)-4)
		switch g.Intn(6) {
		case 0:
			y = g.size(p, g.Intn(9)-4)
		case 1: // a right triangle
			t := [][3]int64{{3, 4}, {5, 12}, {8, 15}, {7, 24}, {20, 21}, {20, 99}, {119, 120}}[g.Intn(7)]
			k := g.digits(1 + g.Intn(p+2))
			e := g.Intn(9) - 4
			x, y = fin(mul(k, big.NewInt(t[0])), e), fin(mul(k, big.NewInt(t[1])), e)
		case 2: // far apart
			y = g.size(p, x.e+g.Intn(2*p+30)-p-15)
		case 3:
			y = x
		case 4: // halfway
			s, n := g.near(mini(p, 60))
			x = fin(s, g.Intn(7)-3-n)
			y = g.size(p, x.e+len(s.String())-p/2-g.Intn(p+4))
		case 5:
			y = fin(new(big.Int), g.Intn(9)-4)
		}
		if g.coin() == 0 {
			x, y = y, x
		}
		return g.signed(x), g.signed(y)
	}
	return g.size(p, 0), g.size(p, 0)
}

func (v value) half() value {
	v.c = mul(v.c, big5)
	v.e--
	return v
}

// tameFunc replaces operands with which a function takes long.
func (g *gen) tameFunc(op string, v *value) {
	if v.k != 0 {
		return
	}
	adj := v.e + len(v.c.String()) - 1
	lim := 6000
	switch op {
	case "Pow":
		if adj > 18 && adj < 5000 && g.pct(50) {
			return
		}
		lim = 12
	case "Exp":
		lim = 12
		if adj > 18 && adj < 5000 || adj > 12 && g.pct(20) {
			v.e += g.Intn(3) + maxi(0, 18-adj)
			return // out of all ranges
		}
	}
	if adj > lim || adj < -6000 {
		v.e -= adj - adj%lim
	}
}

// special chooses other operands for functions.
func (k *call) special(g *gen) {
	if !isFunc[k.op] {
		return
	}
	if prec(k.c) < far && prec(k.c) > 130 {
		k.c[0] = 1 + g.Intn(60)
	}
	if g.pct(g.o.rel) {
		k.x, k.y = g.funcOperands(k.op, k.c)
	}
	g.tameFunc(k.op, &k.x)
	g.tameFunc(k.op, &k.y)
	if k.op == "Pow" && prec(k.c) >= far && k.y.k == 0 && k.y.e+len(k.y.c.String()) > 4 {
		k.y = fin(big.NewInt(int64(g.Intn(50))), 0) // powers without rounding are long
	}
}

// function executes one function on registers of its choice.
func (g *gen) function(op string) *Event {
	info := opTable[op]
	z := g.reg()
	x, y := 0, 0
	via := string(info.via[g.Intn(len(info.via))])
	c := g.context()
	if g.pct(g.o.deep) {
		c[0] = g.pick(60+g.Intn(240), 290+g.Intn(20), 290+g.Intn(20), 300+g.Intn(100))
		if g.pct(10) {
			c[0] = 745 + g.Intn(30)
		}
	}
	cx := c
	if via == "f" {
		g.loadAny(z, c)
	} else if c[2] <= 1 {
		// the receiver's OperatingMode decides whether NaNs panic
		if m := g.obsCtx(z)[2]; m > 1 {
			g.loadAny(z, g.otherCtx(c))
		} else {
			c[2] = m
		}
	}
	if info.arity > 0 {
		x = g.regNot(z)
		if g.pct(g.o.alias) {
			x = z
		}
	}
	if info.arity > 1 {
		y = g.regNot(x, z)
		if g.pct(g.o.alias) {
			y = g.pick(x, z)
		}
	}
	vx, vy := g.value(c), g.value(c)
	if g.pct(g.o.rel) {
		vx, vy = g.funcOperands(op, c)
		if g.pct(g.o.special) {
			vx = g.value(opts0ctx)
		}
		if g.pct(g.o.special) {
			vy = g.value(opts0ctx)
		}
	}
	g.tameFunc(op, &vx)
	g.tameFunc(op, &vy)
	if x == y {
		vx = vy
	}
	if op == "Pow" && prec(c) >= far && vy.k == 0 && vy.e+len(vy.c.String()) > 4 {
		vy = fin(big.NewInt(int64(g.Intn(50))), 0) // powers without rounding are long
		if x == y {
			vx = vy
		}
	}
	if x != 0 {
		g.load(x, vx, g.obsCtx(x), g.how(), g.conds(), g.traps())
	}
	if y != 0 && y != x {
		g.load(y, vy, g.obsCtx(y), g.how(), g.conds(), g.traps())
	}
	e := Event{O: op, V: via, Z: z, X: x, Y: y}
	if via == "c" {
		e.Cx = cx
	}
	p := g.do(e)
	g.tame(z)
	return p
}

// funcSuite makes histories of functions.
func funcSuite(name string, o opts) suiteFunc {
	if o.events == 0 {
		o.events = 24
	}
	return func(seed int64, traces int, until time.Time) {
		for i := 0; i < traces && time.Now().Before(until); i++ {
			g := &gen{newRand(seed, name, i), newTracer(), o}
			g.begin()
			for len(g.tr) < o.events {
				g.function(g.op())
			}
			g.emit()
		}
	}
}

// seriesEvent evaluates a continued fraction or a series.
func (g *gen) seriesEvent() {
	z := g.reg()
	c := []int{g.precision(), g.pick(0, 1), 0, 0, 0}
	if g.pct(25) {
		c[1] = g.Intn(7)
	}
	if c[0] != 0 && c[0] < 5 {
		c[0] += 4
	}
	if g.pct(g.o.deep) {
		c[0] = 60 + g.Intn(200)
	}
	g.load(z, value{c: new(big.Int)}, c, g.Intn(4), 0, 0)
	e := Event{V: "c", Z: z, Cx: c}
	if g.pct(15) {
		e.V, e.Cx = "f", nil
	}
	switch g.Intn(4) {
	case 0, 1:
		e.O = []string{"Wallis", "Lentz"}[g.Intn(2)]
		if e.O == "Lentz" && c[0] != 0 && c[0] < 16 && c[1] > 1 {
			e.O = "Wallis"
		}
		n := 1 + g.Intn(g.pick(4, 12, 40))
		loop := 0
		if g.pct(60) {
			loop = 1
		}
		var a, b []int
		for i := 0; i < n; i++ {
			a = append(a, 1+g.Intn(g.pick(1, 3, 10)))
			b = append(b, 1+g.Intn(g.pick(3, 10, 1000)))
		}
		if loop == 1 {
			// so that it converges quickly
			a[n-1] = 1 + g.Intn(3)
			b[n-1] = a[n-1] + g.Intn(20)
		}
		neg := 0
		if g.pct(50) {
			neg = g.Intn(1 << uint(mini(n, 30)))
			for i := range a {
				if b[i] < a[i]+2 {
					b[i] = a[i] + 2 + g.Intn(3)
				}
			}
		}
		if n > 1 && g.pct(30) {
			b[0] = 0
		}
		if g.pct(10) { // intermediate denominators or numerators vanish
			k := g.Intn(2)
			n := 4 + g.Intn(20)
			a, b, neg = nil, nil, 1<<uint(1+k)
			for i := 0; i < n; i++ {
				a = append(a, 1+g.Intn(3))
				b = append(b, 3+g.Intn(9))
			}
			b[k], b[k+1], a[k+1] = 1, 1, 1
		}
		if e.V == "f" {
			e.Cx = nil
		}
		e.A, e.B = []int{loop, g.Intn(3), neg}, [][]int{a, b}
	case 2: // sum of (a0 + a1 n)/(b0 + b1 n) * P/Q
		e.O = "BinarySplit"
		i := g.Intn(3)
		e.A = []int{i, i + 1 + g.Intn(g.pick(2, 5, 40))}
		e.B = [][]int{{1 + g.Intn(5), g.Intn(4)}, {1 + g.Intn(5), g.Intn(3)}, {1 + g.Intn(5), g.Intn(3)}, {1 + g.Intn(5), 1 + g.Intn(3)}}
	case 3: // terms decrease by at least a half
		e.O = "BinarySplitDynamic"
		pn, pd := 1+g.Intn(5), g.Intn(2)
		e.B = [][]int{{1 + g.Intn(5), g.Intn(2)}, {pn, pd, 1}, {1 + g.Intn(5), g.Intn(2)}, {2*pn + g.Intn(9), 2*pd + g.Intn(5), 1}}
	}
	g.do(e)
}

func init() {
	suites["P20"] = funcSuite("P20", opts{ops: expOps, special: 3, zero: 2, rng: 15, goMode: 4, alias: 12, unl: 2, rel: 92, wide: 5, deep: 2})
	suites["P20"] = after(sweep("P20t", nSweepLog, 12, sweepLog), suites["P20"])
	suites["P20"] = after(sweep("P20x", nSweepExp, 12, sweepExp), suites["P20"])
	suites["P21"] = funcSuite("P21", opts{ops: trigOps, special: 3, zero: 2, rng: 8, goMode: 4, alias: 12, unl: 2, rel: 92, wide: 5, deep: 2})
	suites["P21"] = after(sweep("P21t", nSweepTrig, 12, sweepTrig), suites["P21"])
	consts := funcSuite("P22", opts{ops: constOps, events: 14, rng: 8, goMode: 4, unl: 2, deep: 45})
	suites["P22"] = func(seed int64, traces int, until time.Time) {
		consts(seed, traces/2, until)
		for i := 0; i < traces/2 && time.Now().Before(until); i++ {
			g := &gen{newRand(seed, "P22s", i), newTracer(), opts{special: 5, zero: 5, rng: 5, deep: 4}}
			g.begin()
			for len(g.tr) < 20 {
				g.seriesEvent()
			}
			g.emit()
		}
	}
}
