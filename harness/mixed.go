package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"
)

var arithOps = []string{"Add", "Sub", "Mul", "FMA", "Quo", "QuoInt", "Rem", "QuoRem", "Abs", "Neg", "Set", "Sqrt",
	"Floor", "Ceil", "NextPlus", "NextMinus", "Quantize", "RoundToInt", "Round", "Reduce", "SetRat"}

func viaOf(g *gen, s string) string { return string(s[g.Intn(len(s))]) }

// farExp returns an exponent that is about anything.
func (g *gen) farExp() int {
	switch g.Intn(5) {
	case 0:
		return g.Intn(2*far/2) - far/2
	case 1:
		return g.pick(1, -1) * (1 << uint(g.Intn(30)))
	case 2:
		return g.pick(1, -1) * int(math.Pow(10, float64(g.Intn(90))/10))
	}
	return g.Intn(61) - 30
}

// quiet executes one of the operations that neither round nor raise conditions.
func (g *gen) quiet() {
	z, x := g.reg(), g.reg()
	if z != x && g.pct(15) {
		g.dirty(z, g.obsCtx(z), x)
	}
	e := Event{Z: z, X: x}
	switch g.Intn(18) {
	case 0:
		e.O = "Copy"
	case 1:
		e.O, e.V = "Canonical", viaOf(g, "mf")
	case 2:
		e.O, e.V = "CopyAbs", viaOf(g, "mf")
	case 3:
		e.O, e.V = "CopyNeg", viaOf(g, "mf")
	case 4:
		e.O, e.Y = "CopySign", g.reg()
	case 5:
		e.O, e.V, e.X, e.A = "SetSignbit", viaOf(g, "mf"), 0, []int{g.coin()}
	case 6:
		e.O, e.X, e.A = "SetScale", 0, []int{g.farExp()}
	case 7:
		e.O, e.X, e.A = "SetInf", 0, []int{g.coin()}
	case 8:
		e.O, e.X, e.A = "SetNaN", 0, []int{g.coin()}
	case 9:
		v := g.coefficient(20)
		if !v.IsUint64() {
			v = new(big.Int).SetUint64(math.MaxUint64 - uint64(g.Intn(3)))
		}
		e.O, e.X, e.B = "SetUint64", 0, [][]int{encBig(v)}
	case 10:
		e.O, e.X, e.A, e.B = "SetMantScale", 0, []int{g.farExp()}, [][]int{encBig(g.int64())}
	case 11:
		e.O, e.X, e.A, e.B = "SetBigMantScale", 0, []int{g.farExp(), g.coin()}, [][]int{encBig(g.sign(g.coefficient(20)))}
	case 12:
		e.O, e.X, e.A, e.B = "New", 0, []int{g.farExp()}, [][]int{encBig(g.int64())}
	case 13:
		e.O, e.X, e.Cx, e.A = "WithContext", 0, g.context(), []int{1, 1}[:g.Intn(3)]
	case 14:
		e.O, e.X, e.A = "WithPrecision", 0, []int{g.pick(0, 1, 5, 100, far, unlim, -1, beyond, -beyond)}
	case 15:
		e.O, e.X = "SetFloat64", 0
		e.A, e.B = g.float64()
	case 16:
		e.O, e.X = "SetFloat", 0
		e.A, e.B = g.bigFloat()
	case 17:
		e.O, e.X, e.Cx, e.A = "SetCtx", 0, g.context(), []int{g.traps(), g.conds()}
	}
	g.do(e)
	if e.O == "WithPrecision" && e.A[0] == far {
		g.loadAny(e.Z, g.context()) // operations would work with billions of digits
	}
}

func (g *gen) int64() *big.Int {
	switch g.Intn(5) {
	case 0:
		return big.NewInt([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 32, -1 << 31}[g.Intn(8)])
	case 1:
		return big.NewInt(int64(g.Intn(2000) - 1000))
	}
	v := g.sign(g.coefficient(19))
	if !v.IsInt64() {
		return big.NewInt(int64(g.Uint64()))
	}
	return v
}

// float64 returns class, sign, exponent, 0; mantissa
func (g *gen) float64() ([]int, [][]int) {
	if g.pct(8) {
		return []int{1 + g.coin(), g.coin(), 0, 0}, [][]int{{0}}
	}
	if g.pct(5) {
		return []int{0, g.coin(), 0, 0}, [][]int{{0}}
	}
	n := uint(1 + g.Intn(53))
	m := new(big.Int).Rand(g.Rand, new(big.Int).Lsh(big1, n))
	if m.Sign() == 0 || g.pct(10) {
		m.Lsh(big1, n-1)
	}
	if g.pct(10) {
		m = add(new(big.Int).Lsh(big1, 53), -1)
	}
	var e int
	switch g.Intn(5) {
	case 0:
		e = 971 - g.Intn(3)
	case 1:
		e = -1074 + g.Intn(4)
	case 2:
		e = g.Intn(20) - 10
	case 3:
		e = g.Intn(140) - 70
	case 4:
		e = g.Intn(2046) - 1074
	}
	if m.BitLen()+e > 1024 {
		e = 1024 - m.BitLen()
	}
	return []int{0, g.coin(), e, 0}, [][]int{encBig(m)}
}

func (g *gen) bigFloat() ([]int, [][]int) {
	p := g.pick(1, 2, 8, 24, 53, 64, 65, 100, 113, 128, 200)
	if g.pct(8) {
		return []int{1, g.coin(), 0, p}, [][]int{{0}}
	}
	if g.pct(5) {
		return []int{0, g.coin(), 0, p}, [][]int{{0}}
	}
	m := new(big.Int).Rand(g.Rand, new(big.Int).Lsh(big1, uint(1+g.Intn(p))))
	if m.Sign() == 0 {
		m.SetInt64(1)
	}
	e := g.Intn(400) - 200
	if g.pct(20) {
		e = g.Intn(4000) - 2000
	}
	if g.pct(30) {
		e = g.Intn(8) - 4
	}
	return []int{0, g.coin(), e, p}, [][]int{encBig(m)}
}

// related returns a value that compares delicately with v.
func (g *gen) related(v value, c []int) value {
	w := v
	switch g.Intn(7) {
	case 0, 1: // the same value
		n := g.Intn(45)
		if g.pct(40) {
			n = g.Intn(4)
		}
		w.c, w.e = mul(v.c, pow10(n)), v.e-n
	case 2: // almost
		n := g.Intn(25)
		w.c, w.e = new(big.Int).Abs(add(mul(v.c, pow10(n)), int64(g.Intn(3)-1))), v.e-n
	case 3:
		w.s = 1 - v.s
	case 4: // the same coefficient
		w.e = v.e + g.Intn(3) - 1
	case 5:
		w.e = g.farExp()
	case 6:
		w = g.value(c)
	}
	if g.pct(10) {
		w.s = 1 - w.s
	}
	return w
}

// compare executes comparisons.
func (g *gen) compare() {
	x := g.reg()
	y := g.regNot(x)
	c := g.obsCtx(x)
	if g.pct(g.o.rel) {
		v := g.value(c)
		if g.pct(20) {
			v.e = g.farExp()
		}
		g.load(x, v, c, g.how(), 0, 0)
		g.load(y, g.related(v, c), g.obsCtx(y), g.how(), 0, 0)
	}
	if g.pct(4) {
		y = x
	}
	if g.pct(65) {
		g.do(Event{O: "Cmp", X: x, Y: y})
		return
	}
	l := []int{x, y}
	for i := g.Intn(4); i > 0; i-- {
		l = append(l, g.reg())
	}
	g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	// each register once: which of equal pointers is returned can't be told
	seen := map[int]bool{}
	var u []int
	for _, i := range l {
		if !seen[i] {
			seen[i] = true
			u = append(u, i)
		}
	}
	if len(u) < 2 {
		u = append(u, g.regNot(u[0]))
	}
	g.do(Event{O: "MaxMin", A: u})
}

// moderate makes sure that a conversion of register x ends.
func (g *gen) moderate(x, lim int) {
	o := &g.m.obs[x]
	if o.K == 0 && (o.E > lim || o.E < -lim || o.Pr > 2000) {
		v := g.value(opts0ctx)
		if v.e > lim || v.e < -lim {
			v.e = 0
		}
		g.load(x, v, g.obsCtx(x), g.how(), 0, 0)
	}
}

// convert executes conversions to Go's types.
func (g *gen) convert() {
	x := g.reg()
	c := g.obsCtx(x)
	n := g.Intn(4)
	switch {
	case g.pct(g.o.rel) && (n <= 1 || g.pct(40)): // around the ends of the ranges of integers
		v := new(big.Int).Lsh(big1, uint(g.pick(0, 8, 31, 32, 53, 62, 63, 63, 63, 64, 64, 64, 65)))
		if n > 1 {
			v = new(big.Int).Lsh(big1, uint(g.pick(24, 53, 53, 53, 54, 63, 64)))
		}
		v = add(v, int64(g.Intn(5)-2))
		v.Abs(v)
		e := 0
		switch g.Intn(4) {
		case 0: // with a fraction
			k := 1 + g.Intn(25)
			v = mul(v, pow10(k))
			e = -k
			switch g.Intn(4) {
			case 0:
				v = add(v, 1)
			case 1:
				v = new(big.Int).Abs(add(v, -1))
			case 2:
				v.Add(v, new(big.Int).Rand(g.Rand, pow10(k)))
			}
		case 1: // trailing zeros become the exponent
			v = mul(big.NewInt(int64(g.Intn(2000))), big1)
			e = g.Intn(20)
		case 2:
			v = g.coefficient(19)
			e = g.Intn(45) - 22
		}
		w := fin(g.sign(v), e)
		g.load(x, w, c, g.how(), 0, 0)
	case g.pct(g.o.rel): // near floats: halfway between two of them
		a, b := g.float64()
		a[0] = 0
		m := decBig(b[0])
		ex := a[2]
		if ex < -400 && g.pct(70) {
			ex = -g.Intn(300)
		}
		// (2m+1)*2^(ex-1)
		m = add(mul(m, big2), int64(g.Intn(3)))
		ex--
		v := value{s: g.coin()}
		if ex >= 0 {
			v.c = new(big.Int).Lsh(m, uint(ex))
		} else {
			v.c = mul(m, new(big.Int).Exp(big5, big.NewInt(int64(-ex)), nil))
			v.e = ex
		}
		switch g.Intn(3) {
		case 0:
			v.c = add(mul(v.c, big10), 1)
			v.e--
		case 1:
			if v.c.Sign() > 0 {
				v.c = add(mul(v.c, big10), -1)
				v.e--
			}
		}
		g.load(x, v, c, g.how(), 0, 0)
	case g.pct(50):
		g.loadAny(x, c)
	}
	g.moderate(x, 700)
	switch n {
	case 0:
		g.do(Event{O: "Int", X: x, A: []int{g.coin()}})
	case 1:
		g.do(Event{O: "Rat", X: x, A: []int{g.coin()}})
	case 2:
		g.do(Event{O: "Float64", X: x})
	case 3:
		g.do(Event{O: "Float", X: x, A: []int{g.pick(0, 0, 1, 2, 24, 53, 64, 100, 200)}})
	}
}

// text

var specialTexts = []string{"", "+", "-", ".", "e", "e5", "1e", "1e+", "1e-", ".e1", "1.e1", ".1e1", "1..2", "1.2.3", "--1", "+-1", "1 ", " 1",
	"NaN", "nan", "-NaN", "+nan", "sNaN", "snan123", "qNaN7", "QNAN", "-sNaN00012", "NaN-1", "NaN1.5", "nanx", "na", "n", "s", "q", "sna", "snann",
	"inf", "Inf", "INFINITY", "-Infinity", "+inf", "infi", "infinit", "infinityy", "in", "i", "inf1", "-", "-.", "+.5", "0x10", "1_000", "١", "1e٣",
	"NaN18446744073709551615", "NaN18446744073709551616", "sNaN99999999999999999999", "NaN00000000000000000000000001", "-0", "0e0", "-0.00E+5",
	"1e2147483647", "1e-2147483648", "1e9223372036854775807", "1e-9223372036854775808", "1e9223372036854775808", "1e99999999999999999999999",
	"0e99999999999999999999999", "-0e-99999999999999999999", "1e-99999999999999999999999", "1e999999999999999999", "1e1000000000000000000",
	"1e1999999999999999998", "1e1999999999999999999", "1e2000000000000000000", "1e-1999999999999999998", "1e-1999999999999999999", "0.1e1999999999999999999",
	"1e-1000000000000000000", "1e0000000000000000000000000005", "1E+00000000000000000000", "\x00", "1\x00", "\xff", "12\xc3\x28", "é", "1e5 ", "1e5x", "e", "E", "1e1e1", "\"1\"", "'1'",
	"infinity ", "Nan", "nAn", "iNf", "nul", "null", "true", "1,5", "1/2", "$1", "(1)", "1e+-5", "1e5.0", "1e.5", "000", "00.00", "007", ".", "..", "0.", ".0", "5.", "-5.", "+5.e2",
	"18446744073709551614", "18446744073709551615", "18446744073709551616", "9223372036854775807", "99999999999999999999", "0.18446744073709551615", "1844674407370955161.5",
	"snan", "sNaN0", "NaN0", "-nan0", "qnan18446744073709551615", "qsnan", "sqnan", "nans", "snaN5e1", "inf.", "inf e", ".inf", ".nan", "1nan", "1inf"}

// number returns a text in the grammar.
func (g *gen) number() string {
	var b strings.Builder
	b.WriteString([]string{"", "", "", "-", "-", "+"}[g.Intn(6)])
	if g.pct(4) { // payloads about the largest one
		b.WriteString([]string{"nan", "sNaN", "QNAN"}[g.Intn(3)])
		b.WriteString(strings.Repeat("0", g.Intn(3)))
		b.WriteString(add(new(big.Int).SetUint64(math.MaxUint64), int64(g.Intn(24)-12)).String())
		if g.pct(10) {
			b.WriteString(fmt.Sprint(g.Intn(10)))
		}
		return b.String()
	}
	if g.pct(8) {
		b.WriteString([]string{"inf", "Infinity", "INF", "NaN", "nan12", "sNaN", "qnan", "SNAN3", "iNFINITY", "NaN" + fmt.Sprint(g.Uint64())}[g.Intn(10)])
		return b.String()
	}
	d := g.coefficient(20).String()
	if g.pct(12) {
		d = g.edge().String()
	}
	if g.pct(20) {
		d = strings.Repeat("0", g.Intn(25)) + d
	}
	if g.pct(5) {
		d = strings.Repeat("0", 1+g.Intn(30))
	}
	if g.pct(60) {
		i := g.Intn(len(d) + 1)
		if g.pct(15) {
			i = g.pick(0, len(d))
		}
		d = d[:i] + "." + d[i:]
	}
	b.WriteString(d)
	if g.pct(55) {
		b.WriteString([]string{"e", "E"}[g.Intn(2)])
		b.WriteString([]string{"", "+", "-"}[g.Intn(3)])
		switch g.Intn(8) {
		case 0:
			b.WriteString(strings.Repeat("0", g.Intn(30)))
			b.WriteString(fmt.Sprint(g.Intn(100)))
		case 1:
			b.WriteString(fmt.Sprint(g.Int63n(3e18)))
		case 2:
			b.WriteString(g.random(17 + g.Intn(6)).String())
		case 3:
			b.WriteString(add(mul(big.NewInt(int64(1+g.Intn(2))), pow10(18)), int64(g.Intn(60)-30)).String())
		case 4:
			b.WriteString(add(new(big.Int).Lsh(big1, uint(g.pick(31, 32, 63, 64))), int64(g.Intn(40)-20)).String())
		default:
			b.WriteString(fmt.Sprint(g.Intn(400)))
		}
	}
	return b.String()
}

// mutated returns a text that is possibly not in the grammar.
func (g *gen) mutated() string {
	switch g.Intn(10) {
	case 0, 1:
		return specialTexts[g.Intn(len(specialTexts))]
	case 2: // the alphabet of numbers
		a := "0123456789+-.eEnNaAiIfFtTyYsSqQ \t_x"
		b := make([]byte, g.Intn(9))
		for i := range b {
			b[i] = a[g.Intn(len(a))]
		}
		return string(b)
	case 3, 4, 5:
		return g.number()
	}
	b := []byte(g.number())
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := g.Intn(len(b))
		a := "0123456789+-.eEnNaAiIfFtTyYsSqQ \t_x"
		switch g.Intn(5) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = append(b[:i], append([]byte{a[g.Intn(len(a))]}, b[i:]...)...)
		case 2:
			b[i] = a[g.Intn(len(a))]
		case 3:
			b[i] = byte(g.Intn(256))
		case 4:
			b = append(b, b[i:]...)
		}
	}
	if len(b) > 500 {
		b = b[:500]
	}
	return string(b)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] < 32 && s[i] != '\t' && s[i] != '\n' {
			return false
		}
	}
	return true
}

// parse has register z take a text.
func (g *gen) parse() {
	z := g.reg()
	e := Event{O: "SetString", Z: z, V: viaOf(g, "mmmcttjJs")}
	s := g.mutated()
	switch e.V {
	case "c":
		m := g.m.obs[z].M
		e.Cx = g.context()
		e.Cx[2] = m
		if e.Cx[0] < 0 || e.Cx[0] > unlim || e.Cx[1] > 6 || e.Cx[2] > 1 || e.Cx[3] <= -far || e.Cx[4] >= far {
			e.Cx = []int{20, 0, mini(m, 1), 0, 0}
		}
	case "j":
		if g.pct(60) {
			s = "\"" + s + "\""
		}
		if g.pct(5) {
			s = "null"
		}
	case "J":
		if !jsonable(s) || g.coin() == 0 {
			s = g.number()
		}
		s = "\"" + s + "\""
		if g.pct(5) {
			s = "null"
		}
	case "s":
		if !ascii(s) || strings.TrimSpace(s) == "" {
			s = g.number()
		}
		if g.pct(30) {
			s = " " + s
		}
		if g.pct(30) {
			s += [...]string{" ", "\n", " 5", "\t7"}[g.Intn(4)]
		}
	}
	e.B = [][]int{encBytes(s)}
	g.do(e)
	g.tame(z)
}

// jsonable: s may be put between quotes
func jsonable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] >= 0x7f || s[i] == '"' || s[i] == '\\' {
			return false
		}
	}
	return true
}

// printable makes register x a value whose text is not too long.
func (g *gen) printable(x, lim int) {
	o := &g.m.obs[x]
	if o.K == 0 && (o.E > lim || o.E < -lim || o.Pr > 1000) {
		v := g.value(opts0ctx)
		v.e %= 60
		g.load(x, v, g.obsCtx(x), g.how(), g.conds(), g.traps())
	}
}

// print prints a register, and usually has another one parse the text.
func (g *gen) print() {
	x := g.reg()
	c := g.obsCtx(x)
	if g.pct(70) {
		v := g.value(c)
		switch g.Intn(4) {
		case 0: // around the change to scientific notation
			v.e = -6 - len(v.c.String()) + g.Intn(5) - 1
		case 1:
			v.e = -g.Intn(len(v.c.String()) + 2)
		case 2:
			v.e = g.farExp()
		}
		g.load(x, v, c, g.how(), g.conds(), g.traps())
	}
	p := g.do(Event{O: "String", X: x})
	if g.pct(60) {
		z := g.regNot(x)
		via := g.Intn(3)
		s := p.Rs[0]
		v := "mts"[via : via+1]
		if g.pct(30) {
			v = viaOf(g, "jJ")
			s = p.Rs[2]
		}
		g.do(Event{O: "SetString", Z: z, V: v, B: [][]int{s}})
		if g.m.obs[x].M == 0 {
			g.do(Event{O: "Same", V: "v", X: x, Y: z})
		}
	}
}

// format prints a register with a verb.
func (g *gen) format() {
	x := g.reg()
	c := g.obsCtx(x)
	verb := "eEfFgGsdvq"[g.Intn(10)]
	prec := -1
	switch {
	case g.pct(60):
		prec = 1 + g.Intn(25)
		if g.pct(8) {
			prec = 40 + g.Intn(60)
		}
	}
	if prec == -1 && g.pct(15) && (verb == 'f' || verb == 'F') {
		prec = 0
	}
	width := -1
	if g.pct(40) {
		width = 1 + g.Intn(45)
	}
	flags := 0
	if g.pct(60) {
		flags = g.Intn(32)
	}
	if verb == 'v' {
		flags &^= 16 + 1 // %+v and %#v aren't specified
	}
	if g.pct(g.o.rel) {
		v := g.value(c)
		if v.k == 0 {
			p := maxi(1, prec)
			s, n := g.near(p)
			v = fin(g.sign(s), g.exponent(c, len(s.String()))-n*g.coin())
			if verb == 'f' || verb == 'F' { // put the tie at the digit
				v.e = -n - maxi(0, prec)
				if g.coin() == 0 { // with nothing before it
					v.c = new(big.Int).Rem(v.c, pow10(n))
				}
			}
			if g.pct(20) {
				v.e = g.Intn(40) - 20
			}
		}
		g.load(x, v, c, g.how(), g.conds(), g.traps())
	} else if g.pct(50) {
		g.loadAny(x, c)
	}
	g.printable(x, 400)
	g.do(Event{O: "Format", X: x, A: []int{int(verb), flags, width, prec}})
}

// interchange decomposes, composes and marshals.
func (g *gen) interchange() {
	x := g.reg()
	c := g.obsCtx(x)
	if g.pct(70) {
		v := g.value(c)
		if g.pct(30) {
			v.e = g.farExp()
		}
		g.load(x, v, c, g.how(), g.conds(), g.traps())
	}
	if o := &g.m.obs[x]; o.E >= 2147483648-100 || o.E <= -2147483648+100 {
		g.load(x, g.value(opts0ctx), c, g.how(), 0, 0)
	}
	z := g.reg()
	switch g.Intn(4) {
	case 0, 1:
		p := g.do(Event{O: "Decompose", X: x, A: []int{g.pick(-1, -1, 0, 1, 7, 8, 9, 16, 100)}})
		if p.Pn == 0 {
			q := *p
			g.do(Event{O: "Compose", Z: z, A: []int{q.Rt[0], q.Rt[1], q.Rt[2]}, B: [][]int{q.Rs[0]}})
			if g.m.obs[x].K <= 1 && g.m.obs[z].K <= 1 && z != x {
				g.do(Event{O: "Same", V: "v", X: x, Y: z})
			}
		}
	case 2:
		v := g.coefficient(20).Bytes()
		if g.pct(20) {
			v = append(make([]byte, g.Intn(4)), v...)
		}
		e := g.farExp()
		if g.pct(8) {
			e = g.pick(far, -far)
		}
		form := g.pick(0, 0, 0, 0, 1, 2, 3, 4, 255)
		g.do(Event{O: "Compose", Z: z, A: []int{form, g.coin(), e}, B: [][]int{encBytes(string(v))}})
	case 3:
		g.printable(x, far-1)
		p := g.do(Event{O: "String", X: x})
		s := p.Rs[2]
		if g.pct(10) {
			s = encBytes("null")
		}
		g.do(Event{O: "SetString", V: viaOf(g, "jJ"), Z: z, B: [][]int{s}})
	}
	g.tame(z)
}

// sql drives the wrapper for PostgreSQL.
func (g *gen) sql() {
	x := g.reg()
	c := g.obsCtx(x)
	v := g.value(c)
	if v.k == 0 {
		d := len(v.c.String())
		switch g.Intn(8) {
		case 0: // around the limit of fractional digits
			v.e = -16383 + g.Intn(5) - 2
		case 1:
			v.e = -16383 - g.Intn(d+2)
		case 2: // around the limit of integral digits
			v.e = 131072 - d + g.Intn(5) - 2
		case 3: // a tie
			n := 1 + g.Intn(5)
			s := mul(g.digits(1+g.Intn(20)), pow10(n))
			s.Add(s, mul(big5, pow10(n-1)))
			s = add(s, int64(g.Intn(3)-1))
			v.c, v.e = s, -16383-n
		case 4:
			v.e = g.pick(-1, 1) * g.pick(16383, 16384, 20000, 131071, 131072, 131073, 200000)
		}
		if g.pct(1) && g.o.wide > 0 { // a long one
			v.c = g.random(16390 + g.Intn(10))
			v.e = -16383 - g.Intn(6)
		}
	}
	g.load(x, v, c, g.how(), g.conds(), g.traps())
	a := []int{b2i(g.pct(50)), g.coin(), b2i(g.pct(5))}
	if len(g.m.obs[x].C) > 250 {
		a[0] = 1
	}
	p := g.do(Event{O: "PgValue", X: x, A: a})
	if p.Pn == 0 && p.Rt[0] == 1 && len(p.Rs[0]) < 20000 && g.pct(70) {
		s := p.Rs[0]
		z := g.regNot(x)
		if g.pct(30) {
			g.do(Event{O: "PgNew", Z: z, B: [][]int{s}})
		} else {
			g.do(Event{O: "PgScan", Z: z, A: []int{g.coin()}, B: [][]int{s}})
		}
		g.tame(z)
	}
	g.tame(x)
	if g.pct(25) {
		z := g.reg()
		s := encBytes(g.mutated())
		if g.pct(30) {
			g.do(Event{O: "PgNew", Z: z, B: [][]int{s}})
		} else {
			g.do(Event{O: "PgScan", Z: z, A: []int{g.pick(0, 0, 0, 1, 1, 2, 3, 4)}, B: [][]int{s}})
		}
		g.tame(z)
	}
}

// loop makes histories of the steps that step executes.
func loop(name string, o opts, step func(g *gen)) {
	if o.events == 0 {
		o.events = 40
	}
	suites[name] = func(seed int64, traces int, until time.Time) {
		for i := 0; i < traces && time.Now().Before(until); i++ {
			g := &gen{newRand(seed, name, i), newTracer(), o}
			g.begin()
			for len(g.tr) < o.events {
				step(g)
			}
			g.emit()
		}
	}
}

func (g *gen) arithAny() {
	op := g.op()
	if isFunc[op] {
		g.function(op)
	} else {
		g.arith(op)
	}
}

func (g *gen) names() {
	g.do(Event{O: "Names", A: []int{g.Intn(1 << 13), g.Intn(7), g.Intn(2)}})
}

// anything executes any operation.
func (g *gen) anything() {
	switch n := g.Intn(100); {
	case n < 45:
		g.arithAny()
	case n < 55:
		g.quiet()
	case n < 60:
		g.compare()
	case n < 66:
		g.convert()
	case n < 74:
		g.parse()
	case n < 80:
		g.print()
	case n < 88:
		g.format()
	case n < 92:
		g.interchange()
	case n < 94:
		g.sql()
	case n < 97:
		g.do(Event{O: "Preds", X: g.reg()})
	case n < 98:
		g.names()
	case n < 99:
		g.do(Event{O: "CheckNaNs", Z: g.reg(), X: g.reg(), Y: g.Intn(nRegs + 1), V: "m"})
	default:
		g.do(Event{O: "Err", Z: g.reg()})
	}
	for i := 1; i <= nRegs; i++ {
		g.tame(i)
	}
}

// ends executes operations at the ends of the largest exponent range. Register 6 holds factors and
// divisors, whose exponents are as they are.
func (g *gen) ends(end int) {
	ctx := func() []int {
		c := g.context()
		c[3], c[4] = 0, 0
		if end > 0 {
			c[4] = edge
		} else {
			c[3] = -edge
		}
		return c
	}
	load := func(i int, v value, c []int) {
		g.do(Event{O: "Load", Z: i, Cx: c,
			A: []int{g.how(), v.k, v.s, v.e, g.conds(), g.traps(), end},
			B: [][]int{encBig(v.c), encU64(v.l)}})
	}
	if !g.m.based[1] {
		for i := 1; i < nRegs; i++ {
			c := ctx()
			load(i, g.value(c), c)
		}
	}
	reg := func() int { return 1 + g.Intn(nRegs-1) }
	op := g.o.ops[g.Intn(len(g.o.ops))]
	info := opTable[op]
	c := ctx()
	e := Event{O: op, V: viaOf(g, info.via), Z: reg(), X: reg(), Y: reg()}
	if e.V == "c" {
		c[2] = g.m.obs[e.Z].M
		e.Cx = c
	} else if g.coin() == 0 {
		load(e.Z, g.value(c), c)
	} else {
		c = g.obsCtx(e.Z)
	}
	vx, vy, vu := g.operands(op, c)
	if g.pct(20) {
		vx, vy, vu = g.value(c), g.value(c), g.value(c)
	}
	switch op {
	case "Mul", "Quo", "FMA":
		if vy.k == 0 && vy.c.Sign() == 0 && op == "Quo" {
			vy.c = big1
		}
		e.Y = nRegs
		g.load(nRegs, vy, g.obsCtx(nRegs), g.how(), 0, 0)
	default:
		load(e.Y, vy, g.obsCtx(e.Y))
	}
	load(e.X, vx, g.obsCtx(e.X))
	if op == "FMA" {
		e.U = reg()
		if e.U != e.X {
			load(e.U, vu, g.obsCtx(e.U))
		}
	}
	if info.arity < 2 {
		e.Y = 0
	}
	if info.place {
		e.X = 0
		if op == "Quantize" {
			e.A = []int{g.quantizeScale(c, &g.m.obs[e.Z])}
		}
		if op == "Round" {
			e.A = []int{1 + g.Intn(40)}
		}
	}
	g.do(e)
	if g.pct(10) {
		g.do(Event{O: "Cmp", X: e.Z, Y: reg()})
	}
	if o := &g.m.obs[e.Z]; len(o.C) > 60 || o.E < -900 || o.E > 900 {
		load(e.Z, g.value(c), g.obsCtx(e.Z))
	}
}

func init() {
	all := arithOps
	ends := opts{ops: []string{"Add", "Sub", "Mul", "Quo", "FMA", "Set", "Abs", "Neg", "Round", "Quantize", "NextPlus", "NextMinus"},
		special: 2, zero: 8, goMode: 4, rel: 80, maxP: 60, unl: 2}
	loop("ends", ends, func(g *gen) {
		if !g.m.based[1] {
			g.o.deep = g.coin() // the end
		}
		g.ends(2*g.o.deep - 1)
	})
	suites["P06"] = arithSuite("P06", opts{ops: all, funcs: 12, special: 3, zero: 8, rng: 92, goMode: 6, alias: 6, rel: 70, wide: 10, via: ""})
	loop("P07", opts{ops: all, funcs: 12, special: 12, zero: 10, rng: 35, alias: 6, unl: 5, rel: 60, wide: 10, badCtx: 2}, func(g *gen) {
		g.arithAny()
		if g.pct(10) {
			g.do(Event{O: "Err", Z: g.reg()})
		}
		if g.pct(3) {
			g.names()
		}
		if g.pct(5) {
			g.do(Event{O: "SetCtx", Z: g.reg(), Cx: g.context(), A: []int{g.traps(), g.conds()}})
		}
	})
	suites["P08"] = arithSuite("P08", opts{ops: all, funcs: 30, special: 45, zero: 30, rng: 20, alias: 10, unl: 5, goMode: 5, rel: 5, wide: 10})
	loop("P09", opts{special: 10, zero: 8, rng: 5, rel: 70, wide: 10, alias: 5}, func(g *gen) { g.compare() })
	loop("P10", opts{special: 15, zero: 10, rng: 10, goMode: 15, rel: 60, wide: 30}, func(g *gen) { g.print() })
	loop("P11", opts{special: 15, zero: 10, rng: 15, goMode: 10, rel: 60, wide: 30}, func(g *gen) { g.parse() })
	loop("P12", opts{special: 8, zero: 8, goMode: 10, rel: 60, wide: 10}, func(g *gen) { g.format() })
	loop("P13", opts{special: 6, zero: 5, goMode: 10, rel: 65, wide: 10, ops: []string{"SetRat"}}, func(g *gen) {
		switch g.Intn(10) {
		case 0:
			g.arithAny()
		case 1:
			a, b := g.float64()
			g.do(Event{O: "SetFloat64", Z: g.reg(), A: a, B: b})
		case 2:
			a, b := g.bigFloat()
			g.do(Event{O: "SetFloat", Z: g.reg(), A: a, B: b})
		case 3:
			g.quiet()
		case 4:
			g.do(Event{O: "Preds", X: g.reg()})
		default:
			g.convert()
		}
	})
	loop("P14", opts{special: 12, zero: 8, rng: 10, goMode: 10, wide: 30}, func(g *gen) { g.interchange() })
	suites["P23"] = arithSuite("P23", opts{ops: all, funcs: 20, special: 8, zero: 8, rng: 15, goMode: 95, alias: 8, unl: 4, rel: 60, wide: 15, badCtx: 3})
	loop("P24", opts{special: 6, zero: 6, rng: 20, goMode: 15, wide: 1}, func(g *gen) { g.sql() })
	suites["P25"] = arithSuite("P25", opts{ops: []string{"NextPlus", "NextMinus"}, special: 8, zero: 10, rng: 60, alias: 10, unl: 3, goMode: 5, rel: 65, wide: 10})
	suites["P26"] = arithSuite("P26", opts{ops: all, funcs: 25, special: 10, zero: 10, rng: 15, goMode: 15, badCtx: 65, alias: 8, rel: 10, wide: 5})
	loop("P27", opts{special: 20, zero: 10, rng: 25, goMode: 10, alias: 10, rel: 60, wide: 30, ops: []string{"Abs", "Neg", "Reduce"}}, func(g *gen) {
		switch g.Intn(10) {
		case 0, 1, 2:
			g.arithAny()
		case 3, 4:
			g.do(Event{O: "Preds", X: g.reg()})
		case 5:
			g.do(Event{O: "Cmp", X: g.reg(), Y: g.reg()})
		case 6:
			if i := g.reg(); g.coin() == 0 {
				g.loadAny(i, g.obsCtx(i))
			} else { // at the ends of its range
				c := g.obsCtx(i)
				v := g.value(c)
				if c[3] != 0 && emin(c) > -far/2 {
					v.e = emin(c) - len(v.c.String()) + g.Intn(4)
				}
				g.load(i, v, c, g.how(), g.conds(), g.traps())
				g.do(Event{O: "Preds", X: i})
			}
		default:
			g.quiet()
		}
		for i := 1; i <= nRegs; i++ {
			if o := &g.m.obs[i]; len(o.C) > 250 {
				g.loadAny(i, g.obsCtx(i))
			}
		}
	})
	loop("P28", opts{ops: all, funcs: 20, special: 15, zero: 10, rng: 25, alias: 15, unl: 6, rel: 40, wide: 10}, func(g *gen) { g.anything() })
}
