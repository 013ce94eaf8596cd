package main

import (
	"math/big"
	"time"
)

// Histories that go through all the entries of a table, or all the places at
// which a representation changes, instead of choosing some at random.

// sweep makes histories of the events that each of n steps executes.
func sweep(name string, n, per int, step func(g *gen, i int)) suiteFunc {
	return func(seed int64, _ int, until time.Time) {
		for i, t := 0, 0; i < n && time.Now().Before(until); t++ {
			g := &gen{newRand(seed, name, t), newTracer(), opts{special: 3, zero: 3, rng: 5}}
			g.begin()
			for j := 0; j < per && i < n; j++ {
				step(g, i)
				i++
			}
			g.emit()
		}
	}
}

// after makes the histories of one suite, then those of others.
func after(fs ...suiteFunc) suiteFunc {
	return func(seed int64, traces int, until time.Time) {
		for _, f := range fs {
			f(seed, traces, until)
		}
	}
}

// sweepLog takes the logarithm of decimals with each of the triples of digits
// that select a first approximation, and the common logarithm of the powers
// of ten.
func sweepLog(g *gen, i int) {
	c := []int{4 + g.Intn(16), g.pick(0, 0, 0, 1), 0, 0, 0}
	var v value
	op := "Log"
	if i < 900 {
		v.c = big.NewInt(int64(100 + i))
		if k := g.Intn(12); k > 6 {
			v.c = add(mul(v.c, pow10(k)), g.Int63n(pow10(k).Int64()))
		} else if k < 2 {
			v.c = mul(v.c, pow10(20))
		}
		v.e = g.Intn(30) - 20
		if g.Intn(5) == 0 {
			op = "Log10"
		}
	} else {
		v.c = pow10(i - 900)
		v.e = g.pick(0, 0, -1, 1, -(i - 900), g.Intn(50)-25)
		op = "Log10"
		if g.pct(15) {
			v.c = add(v.c, int64(g.pick(-1, 1)))
		}
		c[0] = 5 + g.Intn(7)
	}
	x, z := 1, 2+g.Intn(4)
	g.load(x, v, c, g.how(), 0, 0)
	g.load(z, value{c: big1}, c, g.how(), 0, 0)
	g.do(Event{O: op, V: "c", Z: z, X: x, Cx: c})
}

const nSweepLog = 900 + 45

// sweepBounds goes about the powers of two and ten, where the number of digits
// or of words changes.
func sweepBounds(g *gen, i int) {
	d := int64(i%5 - 2)
	i /= 5
	var v *big.Int
	if i < 48 {
		v = add(pow10(i), d)
	} else {
		v = add(new(big.Int).Lsh(big1, uint(i-48)), d)
	}
	w := fin(v, g.Intn(9)-4)
	if g.coin() == 0 {
		w.s ^= 1
	}
	c := []int{g.pick(0, 60, far), g.Intn(7), 0, 0, 0}
	x := 1 + g.Intn(3)
	g.load(x, w, c, g.how(), 0, 0)
	g.do(Event{O: "Preds", X: x})
	z := 4 + g.Intn(2)
	g.load(z, g.value(opts0ctx), c, g.how(), 0, 0)
	switch g.Intn(4) {
	case 0: // the same by an operation
		y := fin(add(v, -1), w.e)
		g.load(3, y, c, g.how(), 0, 0)
		g.load(6, fin(big1, w.e), c, g.how(), 0, 0)
		g.do(Event{O: "Add", V: "m", Z: z, X: 3, Y: 6})
	case 1:
		g.load(6, fin(pow10(g.Intn(20)), 0), c, g.how(), 0, 0)
		g.do(Event{O: "Mul", V: "m", Z: z, X: x, Y: 6})
	case 2:
		k := g.Intn(22)
		g.load(z, w, c, g.how(), 0, 0)
		g.do(Event{O: "Quantize", V: "m", Z: z, A: []int{k - w.e - g.pick(0, 0, 2*k)}})
	case 3:
		c := []int{1 + g.Intn(22), g.Intn(7), 0, 0, 0}
		g.do(Event{O: "Set", V: "c", Z: z, X: x, Cx: c})
	}
	g.do(Event{O: "Preds", X: z})
}

const nSweepBounds = 5 * (48 + 195)

// sweepFunc executes op on x and y.
func (g *gen) sweepFunc(op string, vx, vy value, c []int) {
	x, y, z := 1, 2, 3+g.Intn(3)
	g.load(x, vx, c, g.how(), 0, 0)
	e := Event{O: op, V: "c", Z: z, X: x, Cx: c}
	if opTable[op].arity > 1 {
		g.load(y, vy, c, g.how(), 0, 0)
		e.Y = y
	}
	g.load(z, g.value(opts0ctx), c, g.how(), 0, 0)
	g.do(e)
}

// sweepContext is a context whose precision takes turns.
func (g *gen) sweepContext(i int) []int {
	c := []int{[]int{9, 16, 34, 7, 19, 1, 50, 2}[i%8], g.pick(0, 0, 0, 1, 2, 3, 4, 5, 6), 0, 0, 0}
	if g.pct(25) {
		c[3] = -g.pick(1, 3, 10, 40)
	}
	return c
}

// sweepTrig goes about the places where trigonometric functions and their
// inverses choose other ways to calculate.
func sweepTrig(g *gen, i int) {
	c := g.sweepContext(g.Intn(8))
	p := c[0]
	pi, _ := piLn10()
	trig := []string{"Sin", "Cos", "Tan"}
	arc := []string{"Asin", "Acos", "Atan"}
	switch {
	case i < 2*90: // tiny
		j := i / 2
		d := g.pick(1, 1, 9, 4, 25, 99999)
		v := g.signed(fin(big.NewInt(int64(d)), -j))
		op := trig[g.Intn(3)]
		if i%2 == 1 && j > 4 {
			op = arc[g.Intn(3)]
		}
		g.sweepFunc(op, v, v, c)
	case i < 180+3*60: // multiples of pi/2, pi/4, pi/6
		i -= 180
		k := mul(pi, big.NewInt(int64(1+i/3)))
		k.Quo(k, big.NewInt(int64(g.pick(2, 2, 4, 6))))
		g.sweepFunc(trig[i%3], g.signed(g.rounded(k, -constDigits, 1+g.Intn(p+12))), value{}, c)
	case i < 360+2*60: // next to 1
		i -= 360
		j := 1 + i/2
		d := big.NewInt(int64(g.pick(1, 1, 2, 5, 9)))
		if i%8 == 0 { // arccosines that need not be rounded
			k := 2 + j/2
			c[3] = -g.pick(1, k-1, k, k+1)
			g.sweepFunc("Acos", fin(add(pow10(2*k), int64(-2*g.pick(1, 4, 9, 100))), -2*k), value{}, c)
		} else if i%2 == 0 {
			d.Neg(d)
			g.sweepFunc(arc[g.Intn(2)], g.signed(fin(d.Add(d, pow10(j)), -j)), value{}, c)
		} else {
			if g.coin() == 0 {
				d.Neg(d)
			}
			g.sweepFunc("Atan", g.signed(fin(d.Add(d, pow10(j)), -j)), value{}, c)
		}
	case i < 480+130: // powers of ten and their neighbours
		i -= 480
		v := fin(big.NewInt(int64(g.pick(1, 1, 3, 99))), i-65)
		if g.coin() == 0 {
			v.c, v.e = add(mul(v.c, pow10(p)), int64(g.Intn(3)-1)), v.e-p
		}
		g.sweepFunc("Atan", g.signed(v), value{}, c)
	case i < 610+130: // quotients
		i -= 610
		x := g.size(p, g.Intn(3))
		y := g.size(p, i-65)
		if g.coin() == 0 {
			x, y = y, x
		}
		g.sweepFunc([]string{"Atan2", "Hypot"}[g.Intn(2)], g.signed(x), g.signed(y), c)
	case i < 740+101: // two digits
		i -= 740
		g.sweepFunc(append(arc, trig...)[g.Intn(6)], g.signed(fin(big.NewInt(int64(i)), -2)), value{}, c)
	case i < 841+72: // square roots of 2 and 3, and their halves and thirds
		i -= 841
		r := new(big.Int).Sqrt(mul(pow10(2*constDigits), big.NewInt(int64(2+i%2))))
		d := 1 + i/2%3
		r.Quo(r, big.NewInt(int64(d)))
		op := "Atan"
		if d > 1 {
			op = arc[g.Intn(3)]
		}
		g.sweepFunc(op, g.signed(g.rounded(r, -constDigits, 1+i/6)), value{}, c)
	}
}

const nSweepTrig = 841 + 72

// sweepExp goes about the places where Exp and Pow choose other ways to
// calculate.
func sweepExp(g *gen, i int) {
	c := g.sweepContext(g.Intn(8))
	p := c[0]
	_, ln10 := piLn10()
	switch {
	case i < 2*80: // tiny and large
		v := fin(big.NewInt(int64(g.pick(1, 9, 10, 89, 90, 91, 899999, 900001))), 0)
		v.e = 4 - len(v.c.String()) - i/2
		g.sweepFunc("Exp", g.signed(v), value{}, c)
	case i < 160+3*40: // next to 0.9, and to 1, units after the last digit
		i -= 160
		n := p + i/3%8 - 4
		v := fin(big.NewInt(int64(g.pick(9, 5, 1)*1000000+g.Intn(3)-1)), -n-7)
		v.s = i % 2
		g.sweepFunc("Exp", v, value{}, c)
	case i < 280+2*60: // powers of ten
		i -= 280
		k := big.NewInt(int64(i/2 - 30))
		g.sweepFunc("Exp", g.rounded(mul(ln10, k), -constDigits, 1+g.Intn(p+9)), value{}, c)
	case i < 400+130: // the ends of the range
		i -= 400
		c[3], c[4] = -g.pick(1, 5, 20, 99), g.pick(1, 5, 20, 99)
		k := []int{emax(c), emax(c) + 1, emin(c), etiny(c), etiny(c) - 1}[i%5]
		g.sweepFunc("Exp", g.rounded(mul(ln10, big.NewInt(int64(k))), -constDigits, 1+g.Intn(p+9)), value{}, c)
	case i < 530+2*70: // powers with integers
		i -= 530
		x := g.size(p, g.Intn(3)-1)
		switch g.Intn(4) {
		case 0:
			x = g.near1(p)
		case 1:
			x = fin(big.NewInt(int64(g.pick(1, 2, 3, 5, 10, 11, 99, 100))), g.Intn(3)-1)
		}
		y := fin(big.NewInt(int64(i/2)), 0)
		y.s = i % 2
		g.sweepFunc("Pow", g.signed(x), y, c)
	case i < 670+60: // powers with halves
		i -= 670
		y := fin(big.NewInt(int64(5*(i-30))), -1)
		g.sweepFunc("Pow", g.size(p, g.Intn(3)-1), y, c)
	case i < 730+62: // exact powers and roots
		i -= 730
		b := big.NewInt(int64(2 + i))
		n := g.pick(2, 4, 5, 8)
		x := fin(new(big.Int).Exp(b, big.NewInt(int64(n)), nil), n*(g.Intn(5)-2))
		g.sweepFunc("Pow", x, fin(big.NewInt(int64(g.pick(1, 1, 3)*1000/n)), -3), c)
	case i < 792+120: // the first approximations of square roots of tiny powers
		i -= 792
		j := 1 + i/2
		y := fin(big.NewInt(int64(g.pick(1, 3, 7))), -j)
		y.s = i % 2
		g.sweepFunc("Pow", g.size(p, g.Intn(5)-2), y, c)
	case i < 912+4*45: // subnormal logarithms
		i -= 912
		j := 1 + i/4
		c[3] = -g.pick(1, maxi(1, j-1), j, j+1)
		d := big.NewInt(int64(g.pick(1, -1, 2, -2, 7, 23, -23, 1000)))
		x := fin(d.Abs(d.Add(d, pow10(j))), -j)
		g.sweepFunc([]string{"Log", "Log", "Log10", "Pow"}[i%4], x, fin(big.NewInt(int64(1+g.Intn(5))), -g.Intn(3)), c)
	}
}

const nSweepExp = 912 + 180
