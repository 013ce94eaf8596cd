package main

import (
	"encoding/json"
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Number of registers of the machine (see spec/Machine.tla).
const nRegs = 6

// Integers that stand for values that TLC's integers can't hold.
const (
	far    = 2000000000 // decimal.MaxScale
	unlim  = 2000000001 // decimal.UnlimitedPrecision
	beyond = 2000000002 // more than that
)

func encInt(x int) int {
	neg := x < 0
	if neg {
		x = -x
	}
	switch {
	case x < 0: // MinInt
		x = beyond
	case x > decimal.UnlimitedPrecision:
		x = beyond
	case x == decimal.UnlimitedPrecision:
		x = unlim
	case x >= far:
		x = far
	}
	if neg {
		return -x
	}
	return x
}

// encExp converts an exponent; the far away ones are all the same.
func encExp(x int) int {
	if x >= far {
		return far
	}
	if x <= -far {
		return -far
	}
	return x
}

func decInt(x int) int {
	switch x {
	case far:
		return decimal.MaxScale
	case unlim:
		return decimal.UnlimitedPrecision
	case beyond:
		return decimal.UnlimitedPrecision + 1
	case -far:
		return -decimal.MaxScale
	case -unlim:
		return -decimal.UnlimitedPrecision
	case -beyond:
		return -decimal.UnlimitedPrecision - 1
	}
	return x
}

// encBig converts x to the representation of spec/BigInt.tla.
func encBig(x *big.Int) []int {
	s := x.Sign()
	if s == 0 {
		return []int{0}
	}
	t := x.String()
	if s < 0 {
		t = t[1:]
	}
	r := make([]int, 1, len(t)/4+2)
	r[0] = s
	for end := len(t); end > 0; end -= 4 {
		st := end - 4
		if st < 0 {
			st = 0
		}
		l := 0
		for _, c := range []byte(t[st:end]) {
			l = l*10 + int(c-'0')
		}
		r = append(r, l)
	}
	return r
}

func decBig(r []int) *big.Int {
	x := new(big.Int)
	b := big.NewInt(10000)
	for i := len(r) - 1; i > 0; i-- {
		x.Mul(x, b)
		x.Add(x, big.NewInt(int64(r[i])))
	}
	if len(r) > 0 && r[0] < 0 {
		x.Neg(x)
	}
	return x
}

func encU64(x uint64) []int { return encBig(new(big.Int).SetUint64(x)) }

func encBytes(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}

func decBytes(r []int) string {
	b := make([]byte, len(r))
	for i, c := range r {
		b[i] = byte(c)
	}
	return string(b)
}

// Reg is what is observed of a register.
type Reg struct {
	K  int   `json:"k"` // 0 finite, 1 infinity, 2 quiet NaN, 3 signaling NaN
	S  int   `json:"s"` // sign bit
	C  []int `json:"c"` // coefficient
	E  int   `json:"e"` // exponent
	L  []int `json:"l"` // payload of a NaN
	Q  int   `json:"q"` // conditions
	P  int   `json:"P"` // Context: precision
	R  int   `json:"R"` // rounding mode
	M  int   `json:"M"` // operating mode
	T  int   `json:"T"` // traps
	Lo int   `json:"lo"`
	Hi int   `json:"hi"`
	Pr int   `json:"pr"` // Precision()
	Mf int   `json:"mf"` // Mantissa is ok

	exp int // E as it is
}

var zeroReg = Reg{C: []int{0}, L: []int{0}, Pr: 1, Mf: 1}

func coef(x *decimal.Big) *big.Int {
	c, u := decimal.Raw(x)
	if *c != 1<<64-1 {
		return new(big.Int).SetUint64(*c)
	}
	return new(big.Int).Set(u)
}

const condMask = 1<<13 - 1

func observe(x *decimal.Big) (r Reg) {
	r = Reg{C: []int{0}, L: []int{0}}
	if x.Signbit() {
		r.S = 1
	}
	switch {
	case x.IsInf(0):
		r.K = 1
	case x.IsNaN(+1):
		r.K = 2
		r.L = encU64(uint64(x.Payload()))
	case x.IsNaN(-1):
		r.K = 3
		r.L = encU64(uint64(x.Payload()))
	default:
		r.C = encBig(coef(x))
		r.exp = -x.Scale()
		r.E = encExp(r.exp)
	}
	c := x.Context
	r.Q = int(c.Conditions & condMask)
	r.P = encInt(c.Precision)
	r.R = int(c.RoundingMode)
	r.M = int(c.OperatingMode)
	r.T = int(c.Traps & condMask)
	r.Lo = encInt(c.MinScale)
	r.Hi = encInt(c.MaxScale)
	r.Pr = x.Precision()
	if _, ok := x.Mantissa(); ok {
		r.Mf = 1
	}
	return r
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *Reg) equal(t *Reg) bool {
	return r.K == t.K && r.S == t.S && r.E == t.E && r.Q == t.Q &&
		r.P == t.P && r.R == t.R && r.M == t.M && r.T == t.T &&
		r.Lo == t.Lo && r.Hi == t.Hi && r.Pr == t.Pr && r.Mf == t.Mf &&
		sameInts(r.C, t.C) && sameInts(r.L, t.L)
}

// Delta is a register that changed: its number, counted from 1, and
// its new state.
type Delta struct {
	I int
	R Reg
}

func (d Delta) MarshalJSON() ([]byte, error) {
	return json.Marshal([]interface{}{d.I, d.R})
}

func (d *Delta) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&d.I, &d.R})
}

// Event is an operation and, once it has been executed, its outcome.
type Event struct {
	O  string  `json:"o"` // operation
	V  string  `json:"v"` // via: m(ethod), c(ontext), f(unction), ...
	Z  int     `json:"z"` // registers, counted from 1; 0 if there is none
	X  int     `json:"x"`
	Y  int     `json:"y"`
	U  int     `json:"u"`
	Cx []int   `json:"cx"` // explicit Context: P, R, M, lo, hi
	A  []int   `json:"a"`  // integers
	B  [][]int `json:"b"`  // big integers or byte strings

	D  []Delta  `json:"d"`  // registers that changed
	Rt []int    `json:"r"`  // results: integers
	Rb [][]int  `json:"rb"` // results: big integers
	Rs [][]int  `json:"rs"` // results: byte strings
	N  []string `json:"n"`  // results: names
	Pn int      `json:"pn"` // 0 none, 1 ErrNaN, 2 other panic, 3 hang
	Ar int      `json:"ar"` // 1 if an argument, or a result handed out earlier, was modified
}

func (e *Event) clean() {
	if e.Cx == nil {
		e.Cx = []int{}
	}
	if e.A == nil {
		e.A = []int{}
	}
	if e.B == nil {
		e.B = [][]int{}
	}
	for i := range e.B {
		if e.B[i] == nil {
			e.B[i] = []int{}
		}
	}
	if e.D == nil {
		e.D = []Delta{}
	}
	if e.Rt == nil {
		e.Rt = []int{}
	}
	if e.Rb == nil {
		e.Rb = [][]int{}
	}
	if e.Rs == nil {
		e.Rs = [][]int{}
	}
	if e.N == nil {
		e.N = []string{}
	}
	for i := range e.Rs {
		if e.Rs[i] == nil {
			e.Rs[i] = []int{}
		}
	}
}

// input returns e without its outcome.
func (e *Event) input() Event {
	return Event{O: e.O, V: e.V, Z: e.Z, X: e.X, Y: e.Y, U: e.U, Cx: e.Cx, A: e.A, B: e.B}
}
