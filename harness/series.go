package main

import (
	"math/big"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/math"
)

// intGen generates the continued fraction whose terms are
// a[i], b[i] up to the last, which is repeated for ever if loop.
type intGen struct {
	a, b []int
	k    int
	neg  int
	loop bool
}

func (g *intGen) Next() bool {
	g.k++
	return g.loop || g.k <= len(g.b)
}

func (g *intGen) Term() decimal.Term {
	i := g.k - 1
	if i >= len(g.b) {
		i = len(g.b) - 1
	}
	a := int64(g.a[i])
	if g.neg>>uint(i)&1 == 1 {
		a = -a
	}
	return decimal.Term{A: decimal.New(a, 0), B: decimal.New(int64(g.b[i]), 0)}
}

type ctxGen struct {
	intGen
	c decimal.Context
}

func (g *ctxGen) Context() decimal.Context { return g.c }

// series evaluates continued fractions (e.B = a, b; e.A[0] = repeat the last term)
// or sums of sum(A(n)/B(n) * prod(P/Q)) where each function is c0 + c1*n (e.B).
func (m *Machine) series(e *Event, z *decimal.Big, c decimal.Context) {
	switch e.O {
	case "Wallis", "Lentz":
		// e.A[1]: whether the generator's context is c, none (then it's z's), or a more precise one.
		// The numerators whose bits are set in e.A[2] are negative.
		ig := intGen{a: e.B[0], b: e.B[1], neg: e.A[2], loop: e.A[0] == 1}
		var g decimal.Generator = &ctxGen{ig, c}
		switch e.A[1] {
		case 1:
			g = &ig
		case 2:
			w := decimal.Context{Precision: c.Precision + 10}
			if c.Precision == 0 {
				w.Precision += decimal.DefaultPrecision
			}
			g = &ctxGen{ig, w}
		}
		var p *decimal.Big
		switch {
		case e.O == "Wallis" && e.V == "f":
			p = math.Wallis(z, g)
		case e.O == "Wallis":
			p = c.Wallis(z, g)
		case e.V == "f":
			p = math.Lentz(z, g)
		default:
			p = c.Lentz(z, g)
		}
		e.Rt = []int{b2i(p == z)}
	default:
		lin := func(k int) decimal.SplitFunc {
			return func(n uint64) *decimal.Big {
				co := e.B[k]
				v := big.NewInt(int64(n))
				v.Mul(v, big.NewInt(int64(co[1])))
				v.Add(v, big.NewInt(int64(co[0])))
				if len(co) > 2 && n == 0 {
					v.SetInt64(int64(co[2]))
				}
				return new(decimal.Big).SetBigMantScale(v, 0)
			}
		}
		if e.O == "BinarySplit" {
			split := decimal.BinarySplit
			if e.V == "f" {
				split = math.BinarySplit
			}
			p := split(z, c, uint64(e.A[0]), uint64(e.A[1]), lin(0), lin(1), lin(2), lin(3))
			e.Rt = []int{b2i(p == z)}
		} else {
			split := decimal.BinarySplitDynamic
			if e.V == "f" {
				split = math.BinarySplitDynamic
			}
			p := split(c, lin(0), lin(1), lin(2), lin(3))
			m.r[e.Z] = p
		}
	}
}
