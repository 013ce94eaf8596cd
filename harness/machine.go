package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"
	"github.com/ericlagergren/decimal/sql/postgres"
)

// Machine is the register machine of spec/Machine.tla, made of real decimals.
type Machine struct {
	r    [nRegs + 1]*decimal.Big
	obs  [nRegs + 1]Reg
	held []func() bool // whether a result handed out earlier is still intact

	base  int // exponent that is called 0
	based [nRegs + 1]bool
}

func newMachine() *Machine {
	m := new(Machine)
	for i := range m.r {
		m.r[i] = new(decimal.Big)
		m.obs[i] = zeroReg
	}
	return m
}

func (m *Machine) hold(f func() bool) {
	if len(m.held) < 64 {
		m.held = append(m.held, f)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// edge is the distance between an end of the largest exponent range and the exponent that's
// called 0 in histories at that end.
const edge = 300

// rebase expresses exponents relative to the base.
func (r *Reg) rebase(base int) {
	if r.K == 0 {
		r.E = encExp(r.exp - base)
	}
	if base > 0 && (r.Hi == 0 || r.Hi == far) {
		r.Hi = edge
	}
	if base < 0 && (r.Lo == 0 || r.Lo == -far) {
		r.Lo = -edge
	}
}

func (m *Machine) unbase(c decimal.Context) decimal.Context {
	if m.base > 0 && c.MaxScale == edge {
		c.MaxScale = c.Precision % 2 * decimal.MaxScale
	}
	if m.base < 0 && c.MinScale == -edge {
		c.MinScale = c.Precision % 2 * -decimal.MaxScale
	}
	return c
}

func ctxOf(c []int) decimal.Context {
	return decimal.Context{
		Precision:     decInt(c[0]),
		RoundingMode:  decimal.RoundingMode(c[1]),
		OperatingMode: decimal.OperatingMode(c[2]),
		MinScale:      decInt(c[3]),
		MaxScale:      decInt(c[4]),
	}
}

// exec executes e and records its outcome.
func (m *Machine) exec(e *Event) {
	e.D, e.Rt, e.Rb, e.Rs, e.N, e.Pn, e.Ar = nil, nil, nil, nil, nil, 0, 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				e.Pn = 2
				if _, ok := r.(decimal.ErrNaN); ok {
					e.Pn = 1
				}
				if debugPanics {
					fmt.Println(e.O, r)
				}
			}
		}()
		m.run(e)
	}()
	for i := 1; i <= nRegs; i++ {
		n := observe(m.r[i])
		if m.based[i] {
			n.rebase(m.base)
		}
		if !n.equal(&m.obs[i]) {
			m.obs[i] = n
			e.D = append(e.D, Delta{i, n})
		}
	}
	for _, f := range m.held {
		if !f() {
			e.Ar = 1
		}
	}
	e.clean()
}

var debugPanics = false

type un = func(z, x *decimal.Big) *decimal.Big
type bi = func(z, x, y *decimal.Big) *decimal.Big

func (m *Machine) run(e *Event) {
	z, x, y, u := m.r[e.Z], m.r[e.X], m.r[e.Y], m.r[e.U]
	var c decimal.Context
	if len(e.Cx) > 0 {
		c = ctxOf(e.Cx)
		// The conditions and traps of the Context itself mean nothing.
		c.Conditions = decimal.Condition(len(e.A)) & 1
		if h := e.Z*7919 + e.X*613 + e.Y*97 + e.Cx[0]; e.O != "WithContext" && h&1 == 0 {
			c.Conditions = decimal.Condition(h*41) & condMask
			c.Traps = decimal.Condition(h*53) & condMask
		}
		c = m.unbase(c)
	} else if z != nil {
		c = z.Context
	}
	ret := func(p *decimal.Big) { e.Rt = append(e.Rt, b2i(p == z)) }
	unary := func(meth, ctx, fn un) {
		switch e.V {
		case "m":
			ret(meth(z, x))
		case "c":
			ret(ctx(z, x))
		default:
			ret(fn(z, x))
		}
	}
	binary := func(meth, ctx, fn bi) {
		switch e.V {
		case "m":
			ret(meth(z, x, y))
		case "c":
			ret(ctx(z, x, y))
		default:
			ret(fn(z, x, y))
		}
	}
	type B = decimal.Big
	switch e.O {
	// arithmetic
	case "Add":
		binary((*B).Add, c.Add, nil)
	case "Sub":
		binary((*B).Sub, c.Sub, nil)
	case "Mul":
		binary((*B).Mul, c.Mul, nil)
	case "Quo":
		binary((*B).Quo, c.Quo, nil)
	case "QuoInt":
		binary((*B).QuoInt, c.QuoInt, nil)
	case "Rem":
		binary((*B).Rem, c.Rem, nil)
	case "FMA":
		if e.V == "m" {
			ret(z.FMA(x, y, u))
		} else {
			ret(c.FMA(z, x, y, u))
		}
	case "QuoRem":
		var q, r *decimal.Big
		if e.V == "m" {
			q, r = z.QuoRem(x, y, u)
		} else {
			q, r = c.QuoRem(z, x, y, u)
		}
		e.Rt = []int{b2i(q == z), b2i(r == u)}
	case "Abs":
		unary((*B).Abs, c.Abs, nil)
	case "Neg":
		unary((*B).Neg, c.Neg, nil)
	case "Set":
		unary((*B).Set, c.Set, nil)
	case "Sqrt":
		unary(nil, c.Sqrt, dmath.Sqrt)
	case "Floor":
		unary(nil, c.Floor, dmath.Floor)
	case "Ceil":
		unary(nil, c.Ceil, dmath.Ceil)
	case "NextPlus":
		unary(nil, c.NextPlus, misc.NextPlus)
	case "NextMinus":
		unary(nil, c.NextMinus, misc.NextMinus)
	case "Exp":
		unary(nil, c.Exp, dmath.Exp)
	case "Log":
		unary(nil, c.Log, dmath.Log)
	case "Log10":
		unary(nil, c.Log10, dmath.Log10)
	case "Sin":
		unary(nil, c.Sin, dmath.Sin)
	case "Cos":
		unary(nil, c.Cos, dmath.Cos)
	case "Tan":
		unary(nil, c.Tan, dmath.Tan)
	case "Asin":
		unary(nil, c.Asin, dmath.Asin)
	case "Acos":
		unary(nil, c.Acos, dmath.Acos)
	case "Atan":
		unary(nil, c.Atan, dmath.Atan)
	case "Pow":
		binary(nil, c.Pow, dmath.Pow)
	case "Atan2":
		binary(nil, c.Atan2, dmath.Atan2)
	case "Hypot":
		binary(nil, c.Hypot, dmath.Hypot)
	case "Pi":
		if e.V == "c" {
			ret(c.Pi(z))
		} else {
			ret(dmath.Pi(z))
		}
	case "E":
		if e.V == "c" {
			ret(c.E(z))
		} else {
			ret(dmath.E(z))
		}
	case "Quantize":
		n := decInt(e.A[0])
		if m.based[e.Z] {
			n -= m.base
		}
		if e.V == "m" {
			ret(z.Quantize(n))
		} else {
			ret(c.Quantize(z, n))
		}
	case "RoundToInt":
		if e.V == "m" {
			ret(z.RoundToInt())
		} else {
			ret(c.RoundToInt(z))
		}
	case "Round": // to e.A[0] digits, or to the Context's precision
		if e.V == "m" {
			ret(z.Round(e.A[0]))
		} else {
			ret(c.Round(z))
		}
	case "Reduce":
		if e.V == "m" {
			ret(z.Reduce())
		} else {
			ret(c.Reduce(z))
		}
	case "SetRat":
		q := new(big.Rat).SetFrac(decBig(e.B[0]), decBig(e.B[1]))
		q0 := new(big.Rat).Set(q)
		if e.V == "m" {
			ret(z.SetRat(q))
		} else {
			ret(c.SetRat(z, q))
		}
		e.Ar |= b2i(q.Cmp(q0) != 0)
		m.hold(func() bool { return q.Cmp(q0) == 0 })
	case "CheckNaNs":
		if e.Y != 0 {
			e.Rt = []int{b2i(z.CheckNaNs(x, y))}
		} else {
			e.Rt = []int{b2i(z.CheckNaNs(x, nil))}
		}

	// quiet operations
	case "Copy":
		ret(z.Copy(x))
	case "Canonical":
		if e.V == "m" {
			ret(z.Canonical(x))
		} else {
			ret(misc.Canonical(z, x))
		}
	case "CopyAbs":
		if e.V == "m" {
			ret(z.CopyAbs(x))
		} else {
			ret(misc.CopyAbs(z, x))
		}
	case "CopyNeg":
		if e.V == "m" {
			ret(z.CopyNeg(x))
		} else {
			ret(misc.CopyNeg(z, x))
		}
	case "CopySign":
		ret(z.CopySign(x, y))
	case "SetSignbit":
		if e.V == "m" {
			ret(z.SetSignbit(e.A[0] == 1))
		} else {
			ret(misc.SetSignbit(z, e.A[0] == 1))
		}
	case "SetScale":
		ret(z.SetScale(decInt(e.A[0])))
	case "SetInf":
		ret(z.SetInf(e.A[0] == 1))
	case "SetNaN":
		ret(z.SetNaN(e.A[0] == 1))
	case "SetUint64":
		ret(z.SetUint64(decBig(e.B[0]).Uint64()))
	case "SetMantScale":
		ret(z.SetMantScale(decBig(e.B[0]).Int64(), decInt(e.A[0])))
	case "SetBigMantScale":
		v := decBig(e.B[0])
		if len(e.A) > 1 && e.A[1] == 1 { // with spare capacity
			v = new(big.Int).Rsh(new(big.Int).Lsh(v, 256), 256)
		}
		v0 := new(big.Int).Set(v)
		ret(z.SetBigMantScale(v, decInt(e.A[0])))
		e.Ar |= b2i(v.Cmp(v0) != 0)
		m.hold(func() bool { return v.Cmp(v0) == 0 })
	case "SetFloat64": // e.A = class, sign, exponent; e.B = mantissa
		ret(z.SetFloat64(makeFloat64(e.A, e.B[0])))
	case "SetFloat": // e.A = class, sign, exponent, precision
		f := makeFloat(e.A, e.B[0])
		f0 := new(big.Float).Copy(f)
		ret(z.SetFloat(f))
		e.Ar |= b2i(f.Cmp(f0) != 0 || f.Prec() != f0.Prec() || f.Mode() != f0.Mode())
		m.hold(func() bool { return f.Cmp(f0) == 0 })
	case "New":
		m.r[e.Z] = decimal.New(decBig(e.B[0]).Int64(), decInt(e.A[0]))
	case "WithContext":
		m.r[e.Z] = decimal.WithContext(c)
	case "WithPrecision":
		m.r[e.Z] = decimal.WithPrecision(decInt(e.A[0]))
	case "SetCtx": // the user assigns a Context: e.Cx and e.A = traps, conditions
		c.Traps = decimal.Condition(e.A[0])
		c.Conditions = decimal.Condition(e.A[1])
		z.Context = c
	case "Load": // e.A = how, k, s, e, conditions, traps; e.B = coefficient, payload
		m.load(e, c)

	// predicates and comparisons
	case "Preds":
		base := 0
		if m.based[e.X] {
			base = m.base
		}
		m.preds(e, x, base)
	case "Cmp":
		e.Rt = []int{x.Cmp(y), x.CmpAbs(y), x.CmpTotal(y), x.CmpTotalAbs(y),
			b2i(x.SameQuantum(y)), misc.CmpTotal(x, y), misc.CmpTotalAbs(x, y),
			b2i(misc.SameQuantum(x, y))}
	case "MaxMin": // e.A lists registers
		var l []*decimal.Big
		for _, i := range e.A {
			l = append(l, m.r[i])
		}
		idx := func(p *decimal.Big) {
			k := 0
			for i := range l {
				if l[i] == p {
					k = e.A[i]
				}
			}
			e.Rt = append(e.Rt, k)
		}
		idx(decimal.Max(l[0], l[1]))
		idx(misc.Max(l...))
		idx(decimal.Min(l...))
		idx(misc.Min(l...))
		idx(decimal.MaxAbs(l...))
		idx(misc.MaxAbs(l...))
		idx(decimal.MinAbs(l...))
		idx(misc.MinAbs(l...))
	case "Err":
		err := z.Context.Err()
		e.Rt = []int{b2i(err != nil)}
		if err != nil {
			e.N = []string{err.Error()}
		}
	case "Names": // e.A = condition, rounding mode, operating mode
		e.N = []string{
			decimal.Condition(e.A[0]).String(),
			decimal.Condition(e.A[0]).Error(),
			decimal.RoundingMode(e.A[1]).String(),
			decimal.OperatingMode(e.A[2]).String(),
		}
	case "Same": // asserted by the specification

	// conversions
	case "Int":
		i, ok := x.Int64()
		v, uok := x.Uint64()
		e.Rt = []int{b2i(ok), b2i(uok)}
		var dst *big.Int
		if len(e.A) > 0 && e.A[0] == 1 {
			dst, _ = new(big.Int).SetString("123456789012345678901234567890", 10)
		}
		b := x.Int(dst)
		e.Rb = [][]int{encBig(big.NewInt(i)), encU64(v), encBig(b)}
		b0 := new(big.Int).Set(b)
		m.hold(func() bool { return b.Cmp(b0) == 0 })
	case "Rat":
		var dst *big.Rat
		if len(e.A) > 0 && e.A[0] == 1 {
			dst = big.NewRat(-355, 113)
		}
		q := x.Rat(dst)
		e.Rb = [][]int{encBig(q.Num()), encBig(q.Denom())}
		q0 := new(big.Rat).Set(q)
		m.hold(func() bool { return q.Cmp(q0) == 0 })
	case "Float64":
		f, ok := x.Float64()
		e.Rt = append(encFloat(f), b2i(ok))
		e.Rb = [][]int{encU64(mant64(f))}
	case "Float": // e.A = precision, 0 for a new Float
		var dst *big.Float
		if e.A[0] > 0 {
			dst = new(big.Float).SetPrec(uint(e.A[0])).SetInt64(77)
		}
		f := x.Float(dst)
		e.Rt, e.Rb = encBigFloat(f)
		f0 := new(big.Float).Copy(f)
		m.hold(func() bool { return f.Cmp(f0) == 0 })

	// strings
	case "String":
		t, err := x.MarshalText()
		j, jerr := json.Marshal(x)
		e.Rt = []int{b2i(err != nil), b2i(jerr != nil)}
		e.Rs = [][]int{encBytes(x.String()), encBytes(string(t)), encBytes(string(j)),
			encBytes(fmt.Sprint(x))}
		t0 := append([]byte(nil), t...)
		m.hold(func() bool { return bytes.Equal(t, t0) })
	case "Format": // e.A = verb, flags, width, precision
		e.Rs = [][]int{encBytes(fmt.Sprintf(formatOf(e.A), x))}
	case "SetString":
		m.setString(e, z, c)
	case "Decompose": // e.A = capacity of the buffer, or -1
		var buf []byte
		if e.A[0] >= 0 {
			buf = bytes.Repeat([]byte{0xAA}, e.A[0])[:0]
		}
		form, neg, co, exp := x.Decompose(buf)
		e.Rt = []int{int(form), b2i(neg), encExp(int(exp))}
		e.Rs = [][]int{encBytes(string(co))}
		if e.A[0] < 0 {
			// it's ours
			for i := range co {
				co[i] ^= 0xFF
			}
		}
	case "Compose": // e.A = form, sign, exponent
		co := []byte(decBytes(e.B[0]))
		co0 := append([]byte(nil), co...)
		exp := int32(e.A[2])
		switch e.A[2] {
		case far:
			exp = math.MaxInt32
		case -far:
			exp = math.MinInt32
		}
		err := z.Compose(byte(e.A[0]), e.A[1] == 1, co, exp)
		e.Rt = []int{b2i(err != nil)}
		e.Ar |= b2i(!bytes.Equal(co, co0))
		for i := range co {
			co[i] ^= 0xFF
		}
	case "PgValue": // e.A = round, zero, nil
		d := postgres.Decimal{V: x, Round: e.A[0] == 1, Zero: e.A[1] == 1}
		if e.A[2] == 1 {
			d.V = nil
		}
		v, err := d.Value()
		kind, n := 0, 0
		switch t := err.(type) {
		case nil:
			if s, ok := v.(string); ok {
				kind = 1
				e.Rs = [][]int{encBytes(s)}
			} else if v != nil {
				kind = 9
			}
		case *postgres.LengthError:
			kind, n = 2, t.N
			if t.Part == "fractional" {
				kind = 3
			}
			e.Rs = [][]int{encBytes(t.Error())}
		default:
			kind = 4
		}
		e.Rt = []int{kind, encInt(n), b2i(e.A[2] == 1 || d.V == x)}
	case "PgScan": // e.A = type of the argument; e.B = bytes
		d := postgres.Decimal{V: z}
		var arg interface{}
		s := decBytes(e.B[0])
		bs := []byte(s)
		switch e.A[0] {
		case 0:
			arg = s
		case 1:
			arg = bs
		case 2:
			arg = 12.5
		case 3:
			arg = nil
		case 4:
			arg = int64(3)
		}
		err := d.Scan(arg)
		e.Rt = []int{b2i(err != nil), b2i(d.V == z)}
		e.Ar |= b2i(string(bs) != s)
		for i := range bs {
			bs[i] = 'x'
		}
	case "PgNew": // Scan into a zero Decimal
		var d postgres.Decimal
		err := d.Scan(decBytes(e.B[0]))
		e.Rt = []int{b2i(err != nil)}
		m.r[e.Z] = d.V
	case "Wallis", "Lentz", "BinarySplit", "BinarySplitDynamic":
		m.series(e, z, c)
	default:
		panic("unknown operation " + e.O)
	}
}

// load puts a value into a register without an operation that rounds.
func (m *Machine) load(e *Event, c decimal.Context) {
	how, k, s, exp := e.A[0], e.A[1], e.A[2], decInt(e.A[3])
	if len(e.A) > 6 { // a history at an end of the largest exponent range
		m.base = e.A[6] * (decimal.MaxScale - edge)
		m.based[e.Z] = true
		exp += m.base
		c = m.unbase(c)
	}
	z := m.r[e.Z]
	if how >= 4 { // a new decimal
		z = new(decimal.Big)
		m.r[e.Z] = z
		how -= 4
	}
	c.Conditions = decimal.Condition(e.A[4])
	c.Traps = decimal.Condition(e.A[5])
	switch k {
	case 0:
		v := decBig(e.B[0])
		switch how {
		case 0:
			z.SetBigMantScale(v, -exp)
		case 1:
			z.Context = decimal.Context{}
			z.SetString(fmt.Sprintf("%sE%d", v, exp))
		case 2:
			if v.IsUint64() {
				z.SetUint64(v.Uint64())
				z.SetScale(-exp)
			} else {
				z.SetBigMantScale(v, -exp)
			}
		case 3:
			t := new(decimal.Big).SetBigMantScale(v, -exp)
			z.Copy(t)
		}
		if s == 1 {
			z.SetSignbit(true)
		}
	case 1:
		z.SetInf(s == 1)
	default:
		z.Context = decimal.Context{}
		t := ""
		if s == 1 {
			t = "-"
		}
		if k == 3 {
			t += "s"
		}
		t += "NaN"
		if p := decBig(e.B[1]); p.Sign() != 0 {
			t += p.String()
		}
		z.SetString(t)
	}
	z.Context = c
}

func (m *Machine) preds(e *Event, x *decimal.Big, base int) {
	mant, ok := x.Mantissa()
	mant2, ok2 := misc.Mantissa(x)
	e.Rt = []int{
		x.Sign(), b2i(x.Signbit()), b2i(x.IsFinite()),
		b2i(x.IsInf(0)), b2i(x.IsInf(1)), b2i(x.IsInf(-1)),
		b2i(x.IsNaN(0)), b2i(x.IsNaN(1)), b2i(x.IsNaN(-1)),
		b2i(x.IsInt()), b2i(x.IsNormal()), b2i(x.IsSubnormal()),
		encExp(x.Scale() + base), x.Precision(), b2i(ok), b2i(ok2),
	}
	if !ok {
		mant, mant2 = 0, 0
	}
	e.Rb = [][]int{encU64(mant), encU64(mant2), encU64(uint64(x.Payload()))}
	e.N = []string{x.Class()}
}

type tokens struct {
	b *bytes.Reader
}

func (m *Machine) setString(e *Event, z *decimal.Big, c decimal.Context) {
	s := decBytes(e.B[0])
	p := z
	ok := true
	var err error
	switch e.V {
	case "m":
		p, ok = z.SetString(s)
	case "c":
		p, ok = c.SetString(z, s)
	case "t": // UnmarshalText
		b := []byte(s)
		err = z.UnmarshalText(b)
		e.Ar |= b2i(string(b) != s)
		for i := range b {
			b[i] = '7'
		}
	case "j": // UnmarshalJSON
		b := []byte(s)
		err = z.UnmarshalJSON(b)
		e.Ar |= b2i(string(b) != s)
		for i := range b {
			b[i] = '7'
		}
	case "J": // json.Unmarshal
		err = json.Unmarshal([]byte(s), z)
	case "s": // fmt.Sscan
		_, err = fmt.Sscan(s, z)
	}
	pk := 0
	if p == z {
		pk = 1
	} else if p != nil {
		pk = 2
	}
	e.Rt = []int{b2i(ok), pk, b2i(err != nil)}
}

func formatOf(a []int) string {
	s := "%"
	for i, f := range "+- 0#" {
		if a[1]>>uint(i)&1 == 1 {
			s += string(f)
		}
	}
	if a[2] >= 0 {
		s += fmt.Sprint(a[2])
	}
	if a[3] >= 0 {
		s += "." + fmt.Sprint(a[3])
	}
	return s + string(rune(a[0]))
}

// Floats: class (0 finite, 1 infinity, 2 NaN), sign, exponent of two, with an
// integer mantissa.
func makeFloat64(a []int, mant []int) float64 {
	var f float64
	switch a[0] {
	case 0:
		f = math.Ldexp(float64(decBig(mant).Uint64()), a[2])
	case 1:
		f = math.Inf(1)
	case 2:
		f = math.NaN()
	}
	return math.Copysign(f, float64(1-2*a[1]))
}

func makeFloat(a []int, mant []int) *big.Float {
	f := new(big.Float).SetPrec(uint(a[3]))
	if a[0] == 1 {
		return f.SetInf(a[1] == 1)
	}
	f.SetInt(decBig(mant))
	f.SetMantExp(f, a[2])
	if a[1] == 1 {
		f.Neg(f)
	}
	return f
}

func encFloat(f float64) []int {
	s := b2i(math.Signbit(f))
	switch {
	case math.IsInf(f, 0):
		return []int{1, s, 0}
	case math.IsNaN(f):
		return []int{2, s, 0}
	case f == 0:
		return []int{0, s, 0}
	}
	bits := math.Float64bits(f)
	exp := int(bits>>52&(1<<11-1)) - 1075
	if exp == -1075 {
		exp = -1074
	}
	return []int{0, s, exp}
}

func mant64(f float64) uint64 {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return 0
	}
	bits := math.Float64bits(f)
	m := bits & (1<<52 - 1)
	if bits>>52&(1<<11-1) != 0 {
		m |= 1 << 52
	}
	return m
}

// encBigFloat returns class, sign, exponent, precision; and the mantissa.
func encBigFloat(f *big.Float) ([]int, [][]int) {
	s := b2i(f.Signbit())
	p := int(f.Prec())
	if f.IsInf() {
		return []int{1, s, 0, p}, [][]int{{0}}
	}
	if f.Sign() == 0 {
		return []int{0, s, 0, p}, [][]int{{0}}
	}
	t := new(big.Float).Copy(f)
	exp := t.MantExp(t)
	t.SetMantExp(t, int(t.MinPrec()))
	exp -= int(t.MinPrec())
	i, _ := t.Int(nil)
	return []int{0, s, exp, p}, [][]int{encBig(i.Abs(i))}
}
