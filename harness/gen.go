package main

import (
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"time"
)

type suiteFunc func(seed int64, traces int, until time.Time)

// gen generates histories: it looks at the live state of the registers it drives.
type gen struct {
	*rand.Rand
	*tracer
	o opts
}

// opts says what a suite's histories are made of. Probabilities are in percent.
type opts struct {
	ops     []string
	events  int // events per history
	funcs   int // functions instead of ops
	special int // NaNs and infinities
	zero    int
	rng     int // contexts with small exponent ranges
	goMode  int
	badCtx  int
	alias   int
	unl     int
	maxP    int // largest precision
	modes   []int
	via     string // "m", "c", "f": letters to choose from
	rel     int    // operands made for the operation
	wide    int    // very different or large exponents
	deep    int    // precisions of hundreds of digits
}

func newRand(seed int64, name string, i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(name))
	return rand.New(rand.NewSource(seed*1000003 + int64(h.Sum64()>>2) + int64(i)*7919))
}

func (g *gen) pct(p int) bool { return g.Intn(100) < p }

func (g *gen) pick(l ...int) int { return l[g.Intn(len(l))] }

func (g *gen) reg() int { return 1 + g.Intn(nRegs) }

// op chooses an operation.
func (g *gen) op() string {
	if g.pct(g.o.funcs) {
		return funcOps[g.Intn(len(funcOps))]
	}
	return g.o.ops[g.Intn(len(g.o.ops))]
}

func (g *gen) coin() int { return g.Intn(2) }

// regs other than those given
func (g *gen) regNot(l ...int) int {
	for {
		r := g.reg()
		ok := true
		for _, i := range l {
			ok = ok && r != i
		}
		if ok {
			return r
		}
	}
}

func (g *gen) precision() int {
	p := 0
	switch g.Intn(10) {
	case 0:
		p = 0
	case 1:
		p = g.pick(1, 2)
	case 2, 3:
		p = 3 + g.Intn(6)
	case 4, 5:
		p = g.pick(9, 15, 16, 17, 18)
	case 6, 7:
		p = 18 + g.Intn(4)
	case 8:
		p = g.pick(28, 34, 38, 39, 40)
	default:
		p = 1 + g.Intn(60)
		if g.pct(15) {
			p = 100 + g.Intn(30)
		}
	}
	if m := g.o.maxP; m > 0 && p > m {
		p = 1 + g.Intn(m)
	}
	return p
}

func prec(c []int) int {
	if c[0] <= 0 {
		return 16
	}
	return c[0]
}

func (g *gen) context() []int {
	c := []int{g.precision(), g.Intn(7), 0, 0, 0}
	if len(g.o.modes) > 0 {
		c[1] = g.o.modes[g.Intn(len(g.o.modes))]
	}
	if g.pct(g.o.unl) {
		c[0] = unlim
	}
	if g.pct(g.o.goMode) {
		c[2] = 1
	}
	if g.pct(g.o.rng) {
		p := prec(c)
		if p == unlim {
			p = 20
		}
		switch g.Intn(5) {
		case 0: // an IEEE format
			switch g.Intn(3) {
			case 0:
				c[0], c[3], c[4] = 7, -95, 96
			case 1:
				c[0], c[3], c[4] = 16, -383, 384
			case 2:
				c[0], c[3], c[4] = 34, -6143, 6144
			}
		case 1:
			c[4] = p + g.Intn(20)
			c[3] = -1 - g.Intn(20)
		case 2:
			c[4] = 1 + g.Intn(10)
			c[3] = -1 - g.Intn(10)
		case 3:
			c[3] = -1 - g.Intn(30)
		case 4:
			c[4] = 1 + g.Intn(30)
		}
	}
	if g.pct(g.o.badCtx) {
		switch g.Intn(6) {
		case 0:
			c[0] = g.pick(-1, -16, -unlim, -beyond)
		case 1:
			c[0] = beyond
		case 2:
			c[1] = g.pick(7, 8, 255)
		case 3:
			c[2] = g.pick(2, 3, 255)
		case 4:
			c[4] = g.pick(unlim, beyond)
		case 5:
			c[3] = g.pick(-unlim, -beyond)
		}
	}
	return c
}

func emax(c []int) int {
	if c[4] == 0 || c[4] >= far {
		return 1 << 40
	}
	return c[4]
}

func emin(c []int) int {
	if c[3] == 0 || c[3] <= -far {
		return -1 << 40
	}
	return c[3]
}

func etiny(c []int) int {
	if prec(c) >= far {
		return emin(c)
	}
	return emin(c) - (prec(c) - 1)
}

var (
	big1  = big.NewInt(1)
	big2  = big.NewInt(2)
	big5  = big.NewInt(5)
	big10 = big.NewInt(10)
)

func pow10(n int) *big.Int {
	return new(big.Int).Exp(big10, big.NewInt(int64(n)), nil)
}

func add(a *big.Int, n int64) *big.Int { return new(big.Int).Add(a, big.NewInt(n)) }
func mul(a, b *big.Int) *big.Int       { return new(big.Int).Mul(a, b) }

func (g *gen) sign(x *big.Int) *big.Int {
	if g.coin() == 1 {
		return new(big.Int).Neg(x)
	}
	return x
}

// nDigits chooses a length near the places where something happens.
func (g *gen) nDigits(p int) int {
	switch g.Intn(10) {
	case 0, 1:
		return 1 + g.Intn(3)
	case 2, 3:
		return 1 + g.Intn(p+4)
	case 4:
		return maxi(1, p-2+g.Intn(5))
	case 5, 6:
		return 17 + g.Intn(5)
	case 7:
		return 19 + g.Intn(21)
	case 8:
		return 1 + g.Intn(70)
	}
	if g.pct(10) {
		return 200 + g.Intn(200)
	}
	return 1 + g.Intn(40)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// digits returns a number with n digits.
func (g *gen) digits(n int) *big.Int {
	switch g.Intn(8) {
	case 0: // 10...0, 10...01
		return add(pow10(n-1), int64(mini(1, n-1)*g.pick(0, 0, 1, 2)))
	case 1: // 99...9
		return add(pow10(n), int64(-1-mini(1, n-1)*g.Intn(3)))
	case 2: // trailing zeros
		k := g.Intn(n)
		return mul(g.random(n-k), pow10(k))
	case 3: // 9s and zeros, or digits near 5
		x := new(big.Int)
		for i := 0; i < n; i++ {
			d := g.pick(0, 9, 9, 0, 4, 5, 5, 6)
			if i == 0 && d == 0 {
				d = 1
			}
			x.Mul(x, big10)
			x.Add(x, big.NewInt(int64(d)))
		}
		return x
	case 4: // a long run of the same digit in the middle
		if n < 3 {
			return g.random(n)
		}
		k := 1 + g.Intn(n-1)
		x := mul(g.random(k), pow10(n-k))
		if g.coin() == 0 {
			x.Add(x, g.random(1+g.Intn(n-k)))
		} else {
			x.Sub(x, big1)
		}
		if len(x.String()) != n {
			return g.random(n)
		}
		return x
	}
	return g.random(n)
}

func (g *gen) random(n int) *big.Int {
	lo := pow10(n - 1)
	x := new(big.Int).Rand(g.Rand, mul(lo, big.NewInt(9)))
	return x.Add(x, lo)
}

// edge returns a number whose first digits are nearly those of a power of two:
// where accumulating digits in a word must stop.
func (g *gen) edge() *big.Int {
	x := new(big.Int).Lsh(big1, uint(g.pick(63, 64, 64, 64, 128)))
	x.Quo(x, pow10(g.pick(0, 1, 1, 1, 2, 3, g.Intn(20))))
	x.Abs(add(x, int64(g.Intn(3)-1)))
	n := g.pick(0, 1, 1, 2, 3, g.Intn(20))
	return x.Add(mul(x, pow10(n)), new(big.Int).Rand(g.Rand, pow10(n)))
}

// payload returns the payload of a NaN.
func (g *gen) payload() uint64 {
	switch g.Intn(8) {
	case 0, 1:
		return uint64(g.Intn(1000))
	case 2:
		return uint64(g.Int63n(1 << 62))
	case 3:
		return g.Uint64()
	case 4:
		return 1<<uint(g.pick(31, 32, 53, 63)) + uint64(g.Intn(3)) - 1
	case 5:
		return math.MaxUint64 - uint64(g.Intn(3))
	}
	return 0
}

// coefficient returns a coefficient that isn't negative.
func (g *gen) coefficient(p int) *big.Int {
	if p >= far {
		p = 20
	}
	switch g.Intn(12) {
	case 0: // around powers of two
		k := uint(g.pick(8, 16, 31, 32, 33, 53, 62, 63, 64, 64, 64, 64, 65, 96, 127, 128, 192))
		x := new(big.Int).Lsh(big1, k)
		x = add(x, int64(g.Intn(7)-3))
		if g.pct(10) {
			x = mul(x, pow10(g.Intn(20)))
		}
		return x
	case 1:
		return big.NewInt(int64(g.Intn(30)))
	case 2: // around 2^64/10^k
		if g.coin() == 0 {
			return g.edge()
		}
		x := new(big.Int).Lsh(big1, 64)
		x.Quo(x, pow10(g.Intn(20)))
		return new(big.Int).Abs(add(x, int64(g.Intn(3)-1)))
	}
	return g.digits(g.nDigits(p))
}

func (g *gen) exponent(c []int, d int) int {
	p := prec(c)
	if p >= far {
		p = 20
	}
	switch {
	case (c[3] != 0 || c[4] != 0) && g.pct(60):
		// an adjusted exponent around an end of the range
		var e int
		switch g.Intn(4) {
		case 0:
			if c[4] == 0 {
				return g.Intn(9) - 4
			}
			e = emax(c) - (d - 1)
		case 1:
			if c[3] == 0 {
				return g.Intn(9) - 4
			}
			e = emin(c) - (d - 1)
		case 2:
			if c[3] == 0 {
				return g.Intn(9) - 4
			}
			e = etiny(c)
		case 3:
			if c[3] == 0 {
				return g.Intn(9) - 4
			}
			e = etiny(c) - (d - 1)
		}
		if e > far/4 || e < -far/4 {
			e = 0
		}
		return e + g.Intn(7) - 3
	case g.pct(30):
		return 0
	case g.pct(40):
		return g.Intn(9) - 4
	case g.pct(50):
		return g.Intn(2*p+11) - p - 5
	case g.pct(g.o.wide):
		return g.pick(-1, 1) * g.pick(50, 100, 300, 999, 1000, 1001, 1500, 2500, 5000)
	}
	return g.Intn(81) - 40
}

// value is the description of a decimal.
type value struct {
	k, s int
	c    *big.Int
	e    int
	l    uint64
}

func fin(x *big.Int, e int) value {
	v := value{c: new(big.Int).Abs(x), e: e}
	if x.Sign() < 0 {
		v.s = 1
	}
	return v
}

func (g *gen) value(c []int) value {
	v := value{c: new(big.Int), s: g.coin()}
	if g.pct(g.o.special) {
		switch g.Intn(4) {
		case 0, 1:
			v.k = 1
		default:
			v.k = 2 + g.coin()
			v.l = g.payload()
		}
		return v
	}
	if !g.pct(g.o.zero) {
		v.c = g.coefficient(prec(c))
	}
	v.e = g.exponent(c, len(v.c.String()))
	return v
}

// load puts v into register i with context c and the conditions q.
func (g *gen) load(i int, v value, c []int, how, q, traps int) {
	g.do(Event{O: "Load", Z: i, Cx: append([]int(nil), c...),
		A: []int{how, v.k, v.s, v.e, q, traps},
		B: [][]int{encBig(v.c), encU64(v.l)}})
}

func (g *gen) how() int { return g.Intn(8) }

func (g *gen) conds() int {
	if g.coin() == 0 {
		return 0
	}
	return g.Intn(1 << 13)
}

func (g *gen) traps() int {
	switch g.Intn(3) {
	case 0:
		return 0
	case 1:
		return 1<<13 - 1
	}
	return g.Intn(1 << 13)
}

func (g *gen) loadAny(i int, c []int) {
	g.load(i, g.value(c), c, g.how(), g.conds(), g.traps())
}

// obsCtx is the context of register i.
func (g *gen) obsCtx(i int) []int {
	o := &g.m.obs[i]
	return []int{o.P, o.R, o.M, o.Lo, o.Hi}
}

// tame reloads register i if it got out of hand.
func (g *gen) tame(i int) {
	o := &g.m.obs[i]
	if len(o.C) > 250 || o.E > 20000 || o.E < -20000 {
		g.loadAny(i, g.obsCtx(i))
	}
}
