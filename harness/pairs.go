package main

import (
	"math/big"
	"sync"
	"time"

	"github.com/ericlagergren/decimal"
)

// call is an operation together with the values of its operands.
type call struct {
	op         string
	info       opInfo
	x, y, u, z value // z: the operand of an operation in place
	a          []int
	b          [][]int
	c          []int // the context
}

// newCall chooses a call of op.
func (g *gen) newCall(op string) *call {
	k := &call{op: op, info: opTable[op], c: g.context()}
	c := k.c
	if g.pct(g.o.rel) {
		k.x, k.y, k.u = g.operands(op, c)
	} else {
		k.x, k.y, k.u = g.value(c), g.value(c), g.value(c)
	}
	reg := func(v value) *Reg { return &Reg{K: v.k, E: v.e, C: encBig(v.c), Pr: len(v.c.String())} }
	if huge(op, c, reg(k.x), reg(k.y), reg(k.u)) {
		k.x, k.y, k.u = g.value(opts0ctx), g.value(opts0ctx), g.value(opts0ctx)
	}
	if k.info.place {
		k.z = g.value(c)
		if g.pct(g.o.rel) {
			s, n := g.near(prec(c))
			k.z = fin(g.sign(s), g.place(c, len(s.String()))-n*g.coin())
		}
		switch op {
		case "Quantize":
			r := reg(k.z)
			k.a = []int{g.quantizeScale(c, r)}
		case "Round":
			k.a = []int{prec(c)}
			if k.a[0] >= far { // the method takes a number of digits
				k.info.via = "c"
			}
		case "Reduce":
			if g.coin() == 0 && k.z.k == 0 {
				k.z.c = mul(k.z.c, pow10(g.Intn(25)))
			}
		}
	}
	if op == "SetRat" {
		d := k.y.c
		if d.Sign() == 0 {
			d = big.NewInt(3)
		}
		n := new(big.Int).Set(k.x.c)
		if k.x.s == 1 {
			n.Neg(n)
		}
		k.b = [][]int{encBig(n), encBig(d)}
	}
	k.special(g)
	return k
}

func (k *call) via(g *gen) string { return viaOf(g, k.info.via) }

// do executes the call on registers.
func (g *gen) call(k *call, via string, z, x, y, u int, cx []int) *Event {
	e := Event{O: k.op, V: via, Z: z, A: k.a, B: k.b}
	switch k.info.arity {
	case 1:
		e.X = x
	case 2:
		e.X, e.Y = x, y
		if k.op == "QuoRem" {
			e.U = u
		}
	case 3:
		e.X, e.Y, e.U = x, y, u
	}
	if via == "c" {
		e.Cx = append([]int(nil), cx...)
	}
	return g.do(e)
}

// dirty loads anything into register z, with context c and no conditions. At
// times what is left in it resembles what register like holds.
func (g *gen) dirty(z int, c []int, like ...int) {
	v := g.value(c)
	if len(like) > 0 && g.pct(30) {
		w := decBig(g.m.obs[like[g.Intn(len(like))]].C)
		g.load(z, v, c, g.how(), 0, 0)
		if w.IsUint64() && g.pct(70) {
			// a NaN with the coefficient as its payload, over any other past
			g.load(z, value{k: 2 + g.coin(), s: g.coin(), l: w.Uint64(), c: new(big.Int)}, c, g.Intn(4), 0, 0)
			return
		}
		v = value{s: g.coin(), c: w, e: v.e}
		g.load(z, v, c, g.Intn(4), 0, 0)
		if g.coin() == 0 {
			g.do(Event{O: "SetInf", V: "m", Z: z, A: []int{g.coin()}})
		}
		return
	}
	if g.coin() == 0 {
		v.c = g.random(20 + g.Intn(60))
	}
	g.load(z, v, c, g.Intn(4), 0, 0)
}

// clean loads zero into a new decimal.
func (g *gen) fresh(z int, c []int) { g.load(z, value{c: new(big.Int)}, c, 4, 0, 0) }

// otherCtx is any context with the operating mode of c.
func (g *gen) otherCtx(c []int) []int {
	d := g.context()
	d[2] = c[2]
	return d
}

// copyOf makes register j, in its context, hold what i does.
func (g *gen) copyTo(j, i int) {
	g.do(Event{O: "Copy", Z: j, X: i})
}

// same asserts that two calls, that panicked or not, left the same in x and y.
func (g *gen) same(a, b *Event, x, y int) {
	if a == nil || b == nil || a.Pn == 1 && b.Pn == 1 {
		return // what a receiver holds after a panic isn't specified
	}
	g.do(Event{O: "Same", V: "q", X: x, Y: y})
}

// aliased executes a call with aliased and with distinct arguments.
func (g *gen) aliased() {
	k := g.newCall(g.op())
	if k.info.place || k.info.arity == 0 {
		return
	}
	c := k.c
	via := k.via(g)
	zc := c
	if via == "c" {
		zc = g.otherCtx(c)
	}
	load := func(i int, v value, cx []int) { g.load(i, v, cx, g.how(), 0, 0) }
	oc := func() []int { return g.otherCtx(c) }
	// registers 1, 2, 3 hold the operands; 4 receives, 5 and 6 hold copies
	type pat struct{ z, x, y, u int }
	var ps []pat
	switch k.info.arity {
	case 1:
		ps = []pat{{1, 1, 0, 0}}
	case 2:
		ps = []pat{{1, 1, 2, 0}, {2, 1, 2, 0}, {1, 1, 1, 0}, {4, 1, 1, 0}}
		if k.op == "QuoRem" {
			ps = []pat{{1, 1, 2, 6}, {2, 1, 2, 6}, {4, 1, 2, 1}, {4, 1, 2, 2}, {1, 1, 2, 2}, {2, 1, 2, 1}, {1, 1, 1, 6}, {4, 1, 1, 1}}
		}
	case 3:
		ps = []pat{{1, 1, 2, 3}, {2, 1, 2, 3}, {3, 1, 2, 3}, {1, 1, 1, 3}, {1, 1, 2, 1}, {2, 1, 2, 2}, {1, 1, 1, 1},
			{4, 1, 1, 3}, {4, 1, 2, 1}, {4, 1, 2, 2}, {4, 1, 1, 1}}
	}
	p := ps[g.Intn(len(ps))]
	// same operand values where the pattern says so
	vals := [4]value{{}, k.x, k.y, k.u}
	ctxs := [4][]int{nil, oc(), oc(), oc()}
	if k.op == "QuoRem" {
		vals[3] = g.value(c)
	}
	for i := 1; i <= 3; i++ {
		if i == p.z || k.op == "QuoRem" && i == p.u {
			ctxs[i] = zc
		}
		if ctxs[i][0] < 0 {
			ctxs[i] = zc
		}
	}
	// The distinct version first.
	at := func(j int) value { return vals[j] }
	load(1, at(p.x), oc())
	if k.info.arity > 1 {
		load(2, at(p.y), oc())
	}
	if k.info.arity > 2 {
		load(3, at(p.u), oc())
	}
	g.dirty(4, zc)
	var first Event
	if k.op == "QuoRem" {
		g.dirty(5, zc)
		first = *g.call(k, via, 4, 1, 2, 5, c)
	} else {
		first = *g.call(k, via, 4, 1, 2, 3, c)
	}
	res, rem := 4, 5
	// Then the aliased one, on registers that are numbered by what they hold; the
	// results stay in 4 (and 5) if those aren't needed.
	for i := 1; i <= 3; i++ {
		load(i, vals[i], ctxs[i])
	}
	z := p.z
	u := p.u
	if z == 4 {
		z = 6
		g.dirty(6, zc, 1, 2, 4)
	}
	if k.op == "QuoRem" && u == 6 {
		u = 3
		g.dirty(3, zc)
	}
	e := *g.call(k, via, z, p.x, p.y, u, c)
	g.same(&first, &e, z, res)
	if k.op == "QuoRem" && e.Pn == 0 {
		g.same(&first, &e, u, rem)
	}
}

// history executes a call on a fresh receiver and on one with a past.
func (g *gen) history(noise func()) {
	k := g.newCall(g.op())
	c := k.c
	via := k.via(g)
	if k.info.place {
		g.load(4, k.z, c, 4+g.Intn(4), 0, 0)
		first := *g.call(k, via, 4, 0, 0, 0, c)
		if g.coin() == 0 {
			noise()
			g.load(4, k.z, c, 4, 0, 0)
			first = *g.call(k, via, 4, 0, 0, 0, c)
		}
		g.dirty(5, c)
		g.load(5, k.z, c, g.Intn(4), 0, 0)
		e := *g.call(k, via, 5, 0, 0, 0, c)
		g.same(&first, &e, 4, 5)
		return
	}
	ops := func() {
		g.load(1, k.x, g.otherCtx(c), 4, 0, 0)
		g.load(2, k.y, g.otherCtx(c), 4, 0, 0)
		if k.op != "QuoRem" {
			g.load(3, k.u, g.otherCtx(c), 4, 0, 0)
		}
	}
	ops()
	g.fresh(4, c)
	if k.op == "QuoRem" {
		g.fresh(3, c)
	}
	first := *g.call(k, via, 4, 1, 2, 3, c)
	if g.pct(60) {
		noise()
		ops()
		// once more, after a history of operations
		g.fresh(5, c)
		if k.op == "QuoRem" {
			g.fresh(3, c)
		}
		e := *g.call(k, via, 5, 1, 2, 3, c)
		g.same(&first, &e, 4, 5)
	}
	g.dirty(6, c, 1, 2, 4, 4)
	if k.op == "QuoRem" {
		g.dirty(3, c)
	}
	e := *g.call(k, via, 6, 1, 2, 3, c)
	g.same(&first, &e, 4, 6)
}

// ways executes a call in all ways there are.
func (g *gen) ways() {
	k := g.newCall(g.op())
	c := k.c
	g.load(1, k.x, g.otherCtx(c), g.how(), g.conds(), g.traps())
	g.load(2, k.y, g.otherCtx(c), g.how(), g.conds(), g.traps())
	g.load(3, k.u, g.otherCtx(c), g.how(), g.conds(), g.traps())
	var first Event
	for n, via := range k.info.via {
		z := 5 + n
		u := 3
		zc := c
		if via == 'c' && g.pct(80) {
			zc = g.otherCtx(c)
		}
		if k.op == "QuoRem" {
			u = 3 + n
			g.load(u, value{c: new(big.Int)}, c, g.how(), 0, 0)
		}
		if k.info.place {
			g.load(z, k.z, zc, g.how(), 0, 0)
		} else {
			g.dirty(z, zc, 1, 5)
		}
		e := *g.call(k, string(via), z, 1, 2, u, c)
		if n == 0 {
			first = e
			continue
		}
		g.same(&first, &e, 5, z)
		if k.op == "QuoRem" && e.Pn == 0 {
			g.same(&first, &e, 3, u)
		}
	}
}

var exactCtx = []int{unlim, 0, 0, 0, 0}

// detour leaves v in register i (using t) along a path of exact operations.
func (g *gen) detour(i, t int, v value, c []int) {
	if v.k != 0 || v.c.Sign() == 0 {
		g.load(i, v, c, g.how(), 0, 0)
		return
	}
	w := v
	sv := new(big.Int).Set(v.c)
	if v.s == 1 {
		sv.Neg(sv)
	}
	switch g.Intn(7) {
	case 0, 1: // from a sum
		k := g.sign(g.random(15 + g.Intn(30)))
		w = fin(new(big.Int).Add(sv, k), v.e)
		g.load(i, w, exactCtx, g.how(), 0, 0)
		g.load(t, fin(k, v.e), exactCtx, g.how(), 0, 0)
		g.do(Event{O: "Sub", V: "m", Z: i, X: i, Y: t})
	case 2: // from a multiple
		n := 1 + g.Intn(25)
		w.c, w.e = mul(v.c, pow10(n)), v.e-n
		g.load(i, w, exactCtx, g.how(), 0, 0)
		g.do(Event{O: "Quantize", V: "m", Z: i, A: []int{-v.e}})
	case 3: // padded with zeros
		n := 0
		q, r := new(big.Int).Set(v.c), new(big.Int)
		for {
			t := new(big.Int)
			t.QuoRem(q, big10, r)
			if r.Sign() != 0 {
				break
			}
			q = t
			n++
		}
		w.c, w.e = q, v.e+n
		g.load(i, w, exactCtx, g.how(), 0, 0)
		g.do(Event{O: "Quantize", V: "m", Z: i, A: []int{-v.e}})
	case 4: // a quotient
		k := g.random(1 + g.Intn(25))
		w.c = mul(v.c, k)
		g.load(i, w, exactCtx, g.how(), 0, 0)
		g.load(t, fin(k, 0), exactCtx, g.how(), 0, 0)
		g.do(Event{O: "QuoInt", V: "m", Z: i, X: i, Y: t})
		if v.e != 0 {
			g.load(i, v, exactCtx, g.how(), 0, 0)
		}
	case 5: // copies
		w.s = 1 - v.s
		g.load(t, w, exactCtx, g.how(), 0, 0)
		g.load(i, g.value(c), c, g.how(), 0, 0)
		g.do(Event{O: "CopyNeg", V: "m", Z: i, X: t})
	default:
		g.load(i, v, exactCtx, g.how(), 0, 0)
	}
	g.do(Event{O: "SetCtx", Z: i, Cx: append([]int(nil), c...), A: []int{0, 0}})
}

// boundary is a coefficient around the ends of the compact ones.
func (g *gen) boundary() *big.Int {
	x := new(big.Int).Lsh(big1, uint(g.pick(62, 63, 64, 64, 64, 64, 64)))
	return add(x, int64(g.Intn(9)-5))
}

// representations executes a call on equal operands that were produced differently.
func (g *gen) representations() {
	k := g.newCall(g.op())
	k.c[2] = 0
	if g.pct(50) && k.x.k == 0 {
		k.x.c = g.boundary()
	}
	if g.pct(40) && k.y.k == 0 {
		k.y.c = g.boundary()
	}
	if g.pct(30) && k.u.k == 0 {
		k.u.c = g.boundary()
	}
	if g.pct(50) && k.z.k == 0 && k.info.place {
		k.z.c = g.boundary()
	}
	via := k.via(g)
	if k.info.place {
		g.detour(4, 3, k.z, k.c)
		g.detour(5, 3, k.z, k.c)
		g.do(Event{O: "Same", V: "q", X: 4, Y: 5})
		g.call(k, via, 4, 0, 0, 0, k.c)
		g.call(k, via, 5, 0, 0, 0, k.c)
		g.do(Event{O: "Same", V: "q", X: 4, Y: 5})
		return
	}
	for i, z := range []int{4, 5} {
		g.detour(1, 6, k.x, k.c)
		if i == 0 {
			switch g.Intn(5) {
			case 0:
				g.do(Event{O: "Preds", X: 1})
			case 1:
				g.do(Event{O: "String", X: 1})
			case 2:
				if e := g.m.obs[1].E; e > -700 && e < 700 {
					g.do(Event{O: "Int", X: 1, A: []int{g.coin()}})
				}
			case 3:
				if e := g.m.obs[1].E; e < 1<<30 && e > -1<<30 {
					g.do(Event{O: "Decompose", X: 1, A: []int{-1}})
				}
			}
		}
		if k.info.arity > 1 {
			g.detour(2, 6, k.y, k.c)
		}
		u := 3
		if k.info.arity > 2 {
			g.detour(3, 6, k.u, k.c)
		}
		g.load(z, g.value(k.c), k.c, g.how(), 0, 0)
		if k.op == "QuoRem" {
			g.load(3, g.value(k.c), k.c, g.how(), 0, 0)
		}
		g.call(k, via, z, 1, 2, u, k.c)
	}
	g.do(Event{O: "Same", V: "q", X: 4, Y: 5})
	g.do(Event{O: "Cmp", X: 4, Y: 5})
}

// sharing copies decimals with large coefficients around, and modifies them in place.
func (g *gen) sharing() {
	if g.pct(25) {
		i := g.reg()
		c := g.context()
		v := g.value(c)
		if g.pct(70) {
			v.k, v.c = 0, g.random(20+g.Intn(60))
		}
		v.l = 0
		g.load(i, v, c, g.how(), 0, g.traps())
	}
	z, x := g.reg(), g.reg()
	switch g.Intn(16) {
	case 0:
		g.do(Event{O: "Copy", Z: z, X: x})
	case 1:
		e := Event{O: "Set", V: viaOf(g, "mc"), Z: z, X: x}
		if e.V == "c" {
			e.Cx = append([]int(nil), exactCtx...)
			e.Cx[2] = mini(1, g.m.obs[z].M)
		}
		g.do(e)
	case 2:
		g.do(Event{O: "CopyAbs", V: viaOf(g, "mf"), Z: z, X: x})
	case 3:
		g.do(Event{O: "CopyNeg", V: viaOf(g, "mf"), Z: z, X: x})
	case 4:
		g.do(Event{O: "CopySign", Z: z, X: x, Y: g.reg()})
	case 5:
		g.do(Event{O: "Canonical", V: viaOf(g, "mf"), Z: z, X: x})
	case 6, 7:
		if g.pct(g.o.funcs * 3) {
			g.function(funcOps[g.Intn(len(funcOps))])
			break
		}
		op := []string{"Abs", "Neg", "Add", "Sub", "Mul", "FMA", "Rem", "QuoInt", "Quo", "Sqrt", "Floor", "Ceil", "NextPlus"}[g.Intn(13)]
		save := g.o.rel
		g.o.rel = 0
		g.arith(op)
		g.o.rel = save
	case 8:
		g.do(Event{O: "MaxMin", A: []int{z, g.regNot(z)}})
	case 9:
		g.moderate(x, 300)
		g.do(Event{O: "Int", X: x, A: []int{g.coin()}})
	case 10:
		g.moderate(x, 300)
		g.do(Event{O: "Rat", X: x, A: []int{g.coin()}})
	case 11:
		g.do(Event{O: "SetBigMantScale", Z: z, A: []int{g.Intn(20), g.coin()}, B: [][]int{encBig(g.sign(g.random(20 + g.Intn(60))))}})
	case 12:
		g.do(Event{O: "SetRat", V: "m", Z: z, B: [][]int{encBig(g.sign(g.random(20 + g.Intn(60)))), encBig(big.NewInt(int64(g.pick(1, 2, 3, 7, 1000))))}})
	case 13:
		g.interchange()
	case 14:
		g.format()
	case 15:
		g.parse()
	}
	// in place
	if g.pct(70) {
		z := g.reg()
		g.tame(z)
		o := &g.m.obs[z]
		op := []string{"Quantize", "RoundToInt", "Round", "Reduce"}[g.Intn(4)]
		e := Event{O: op, V: "m", Z: z}
		switch op {
		case "Quantize":
			e.A = []int{g.quantizeScale(g.obsCtx(z), o)}
		case "Round":
			e.A = []int{maxi(0, o.Pr-g.Intn(25))}
		}
		g.do(e)
	}
	if g.pct(30) {
		z := g.reg()
		g.do(Event{O: "Mul", V: "m", Z: z, X: z, Y: z})
	}
	for i := 1; i <= nRegs; i++ {
		if o := &g.m.obs[i]; len(o.C) > 60 || o.E > 3000 || o.E < -3000 {
			g.loadAny(i, g.obsCtx(i))
		}
	}
}

// concurrent runs several histories at the same time, that share registers 1, 2, 3.
func concurrent(name string, o opts) {
	suites[name] = func(seed int64, traces int, until time.Time) {
		workers := *nWorkers
		for i := 0; i < traces && time.Now().Before(until); i += workers {
			base := &gen{newRand(seed, name, i), newTracer(), o}
			c := base.context()
			for j := 1; j <= 3; j++ {
				v := base.value(c)
				if base.coin() == 0 && v.k == 0 {
					v.c = base.random(20 + base.Intn(60))
				}
				base.load(j, v, base.context(), base.how(), 0, 0)
			}
			k := base.tr
			tracers.Delete(base.tracer)
			// half of the time all of them do the same
			var same *call
			var gs []*gen
			for w := 0; w < workers; w++ {
				g := &gen{newRand(seed, name, i*100+w+1), newTracer(), o}
				g.tr = append([]Event(nil), k...)
				for j := 1; j <= 3; j++ {
					g.m.r[j] = base.m.r[j]
					g.m.obs[j] = base.m.obs[j]
				}
				gs = append(gs, g)
			}
			if base.coin() == 0 {
				same = base.newCall(base.op())
			}
			start := make(chan bool)
			var wg sync.WaitGroup
			calls := make([][]*call, workers)
			for w, g := range gs {
				wg.Add(1)
				go func(w int, g *gen) {
					defer wg.Done()
					<-start
					for n := 0; n < 6; n++ {
						k := same
						if k == nil || n > 0 {
							k = g.newCall(g.op())
						}
						calls[w] = append(calls[w], k)
						if n == 0 {
							g.shared(k, 4)
						} else {
							g.shared(k, 6)
						}
					}
				}(w, g)
			}
			close(start)
			wg.Wait()
			// alone, once more
			for w, g := range gs {
				if g.shared(calls[w][0], 6) {
					g.do(Event{O: "Same", V: "q", X: 4, Y: 6})
				}
				g.emit()
			}
		}
	}
}

// shared executes a call whose operands are, as far as possible, shared, in register z.
func (g *gen) shared(k *call, z int) bool {
	via := "c"
	if len(k.info.via) > 0 && k.info.via[0] == 'm' {
		via = "m"
	}
	if k.info.place {
		g.load(z, k.z0(), k.c, 4, 0, 0)
		g.copyTo(z, 1+maxi(k.c[0], 0)%3)
		if o := &g.m.obs[z]; o.K == 0 && (o.E > 2000 || o.E < -2000 || k.op == "Quantize" && (o.E+k.a[0] > 300 || o.E+k.a[0] < -300)) {
			g.load(z, k.z, k.c, 0, 0, 0)
		}
		g.call(k, via, z, 0, 0, 0, k.c)
		return true
	}
	g.load(z, k.z0(), k.c, 0, 0, 0)
	x, y, u := 1, 2, 3
	if k.op == "QuoRem" {
		u = 5
		g.load(5, k.z0(), k.c, 0, 0, 0)
	}
	if huge(k.op, k.c, &g.m.obs[1], &g.m.obs[2], &g.m.obs[3]) {
		return false
	}
	g.call(k, via, z, x, y, u, k.c)
	return true
}

func (k *call) z0() value { return value{c: new(big.Int)} }

var _ = decimal.GDA

func init() {
	all := arithOps
	loop("P15", opts{ops: all, funcs: 10, special: 5, zero: 5, rng: 10, rel: 50, wide: 5, events: 50}, func(g *gen) { g.representations() })
	suites["P15"] = after(sweep("P15t", nSweepBounds, 12, sweepBounds), suites["P15"])
	loop("P16", opts{ops: all, funcs: 15, special: 12, zero: 10, rng: 15, unl: 4, goMode: 5, rel: 55, wide: 5, events: 50}, func(g *gen) {
		if g.pct(15) {
			g.quiet()
		}
		g.aliased()
	})
	loop("P17", opts{ops: all, funcs: 10, special: 6, zero: 5, rng: 5, unl: 15, rel: 30, wide: 5, alias: 20, events: 60}, func(g *gen) { g.sharing() })
	loop("P18", opts{ops: all, funcs: 15, special: 12, zero: 10, rng: 15, unl: 4, rel: 45, wide: 5, alias: 10, events: 60}, func(g *gen) {
		g.history(func() {
			// other operations, among them some with large coefficients, that touch tables and pools
			g.o.special, g.o.zero = 2, 2
			for n := 1 + g.Intn(3); n > 0; n-- {
				k := g.newCall(g.op())
				if k.info.place {
					continue
				}
				g.load(1, k.x, g.otherCtx(k.c), g.how(), 0, 0)
				g.load(2, k.y, g.otherCtx(k.c), g.how(), 0, 0)
				g.dirty(3, k.c)
				g.dirty(6, k.c)
				g.call(k, k.via(g), 6, 1, 2, 3, k.c)
			}
			g.o.special, g.o.zero = 12, 10
		})
	})
	loop("P29", opts{ops: all, funcs: 15, special: 12, zero: 10, rng: 25, unl: 5, goMode: 8, rel: 45, wide: 5, events: 50}, func(g *gen) {
		switch g.Intn(5) {
		case 0:
			g.quiet()
		case 1:
			g.compare()
		default:
			g.ways()
		}
		for i := 1; i <= nRegs; i++ {
			if o := &g.m.obs[i]; len(o.C) > 250 {
				g.loadAny(i, g.obsCtx(i))
			}
		}
	})
	concurrent("P19", opts{ops: all, funcs: 20, special: 5, zero: 5, rng: 10, rel: 50, wide: 10})
}
