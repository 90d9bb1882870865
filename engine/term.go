package main

// Hash-consed terms over Bool, (_ BitVec w) and Int with eager simplification.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	// bit-vectors
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat // n-ary, high to low
	OExtract
	OSext
	OUlt
	OUle
	OSlt
	OSle
	// ints
	OSum // c + sum coef*arg
	OIMul
	OIDiv // floor (divisor > 0) / SMT-LIB euclidean
	OIMod
	OLe
	OBV2Nat
	OInt2BV
	OBitLen // Int -> BV64, bit length of |x|
	OUF
)

type Term struct {
	op    Op
	k     Kind
	w     int32 // BV width
	a, b  int32 // extract hi, lo
	id    int32
	args  []*Term
	u     uint64   // const: bool / BV<=64
	big   *big.Int // const: BV>64, Int; OSum: constant
	coefs []*big.Int
	name  string
	lo    *big.Int
	hi    *big.Int
}

type tkey struct {
	op      Op
	k       Kind
	w, a, b int32
	x, y, z int32
	u       uint64
	s       string
}

type TT struct {
	m     map[tkey]*Term
	n     int32
	True  *Term
	False *Term
	pow2  []*big.Int
}

func NewTT() *TT {
	t := &TT{m: map[tkey]*Term{}}
	t.True = t.mk(tkey{op: OConst, k: KBool, u: 1}, nil, nil)
	t.False = t.mk(tkey{op: OConst, k: KBool, u: 0}, nil, nil)
	return t
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)
var pow2tab = func() []*big.Int {
	r := make([]*big.Int, 4200)
	for i := range r {
		r[i] = new(big.Int).Lsh(bigOne, uint(i))
	}
	return r
}()

func pow2(n int) *big.Int {
	if n < len(pow2tab) {
		return pow2tab[n]
	}
	return new(big.Int).Lsh(bigOne, uint(n))
}

func (t *TT) mk(k tkey, args []*Term, init func(*Term)) *Term {
	if r, ok := t.m[k]; ok {
		return r
	}
	t.n++
	r := &Term{op: k.op, k: k.k, w: k.w, a: k.a, b: k.b, id: t.n, args: args, u: k.u}
	if init != nil {
		init(r)
	}
	t.m[k] = r
	return r
}

func ids(args []*Term) string {
	b := make([]byte, 0, 4*len(args))
	for _, a := range args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	return string(b)
}

func (t *TT) nary(op Op, k Kind, w int32, args []*Term) *Term {
	key := tkey{op: op, k: k, w: w}
	switch len(args) {
	case 1:
		key.x = args[0].id
	case 2:
		key.x, key.y = args[0].id, args[1].id
	case 3:
		key.x, key.y, key.z = args[0].id, args[1].id, args[2].id
	default:
		key.s = ids(args)
	}
	return t.mk(key, args, nil)
}

func mask(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (x *Term) isC() bool { return x.op == OConst }

func (t *TT) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

func (t *TT) BVu(w int32, u uint64) *Term {
	if w <= 64 {
		return t.mk(tkey{op: OConst, k: KBV, w: w, u: u & mask(w)}, nil, nil)
	}
	return t.BVb(w, new(big.Int).SetUint64(u))
}

func (t *TT) BVb(w int32, v *big.Int) *Term {
	if v.Sign() < 0 || v.BitLen() > int(w) {
		v = new(big.Int).And(v, new(big.Int).Sub(pow2(int(w)), bigOne))
	}
	if w <= 64 {
		return t.BVu(w, v.Uint64())
	}
	return t.mk(tkey{op: OConst, k: KBV, w: w, s: v.Text(62)}, nil, func(x *Term) { x.big = new(big.Int).Set(v) })
}

func (t *TT) Intb(v *big.Int) *Term {
	return t.mk(tkey{op: OConst, k: KInt, s: v.Text(62)}, nil, func(x *Term) { x.big = new(big.Int).Set(v) })
}
func (t *TT) Inti(v int64) *Term { return t.Intb(big.NewInt(v)) }

// cv: numeric value of a constant (not to be mutated)
func (x *Term) cv() *big.Int {
	if x.big != nil {
		return x.big
	}
	return new(big.Int).SetUint64(x.u)
}

func (t *TT) Var(name string, k Kind, w int32) *Term {
	return t.mk(tkey{op: OVar, k: k, w: w, s: name}, nil, func(x *Term) { x.name = name })
}

// IntVar with bounds (bounds must be asserted separately by the caller)
func (t *TT) IntVar(name string, lo, hi *big.Int) *Term {
	v := t.Var(name, KInt, 0)
	v.lo, v.hi = lo, hi
	return v
}

func (t *TT) UF(name string, w int32, args ...*Term) *Term {
	return t.mk(tkey{op: OUF, k: KBV, w: w, s: name + "\x00" + ids(args)}, args, func(x *Term) { x.name = name })
}

// ---------- bounds ----------

func (x *Term) bounds() (*big.Int, *big.Int) {
	if x.lo != nil || x.hi != nil {
		return x.lo, x.hi
	}
	lo, hi := x.compBounds()
	if x.k == KBV {
		if lo == nil {
			lo = bigZero
		}
		full := new(big.Int).Sub(pow2(int(x.w)), bigOne)
		if hi == nil || hi.Cmp(full) > 0 {
			hi = full
		}
	}
	x.lo, x.hi = lo, hi
	return lo, hi
}

func (x *Term) compBounds() (*big.Int, *big.Int) {
	switch x.op {
	case OConst:
		c := x.cv()
		return c, c
	case OIte:
		l1, h1 := x.args[1].bounds()
		l2, h2 := x.args[2].bounds()
		var lo, hi *big.Int
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return lo, hi
	}
	if x.k == KBV {
		switch x.op {
		case OConcat:
			lo, hi := new(big.Int), new(big.Int)
			for _, a := range x.args {
				l, h := a.bounds()
				lo.Lsh(lo, uint(a.w)).Or(lo, l)
				hi.Lsh(hi, uint(a.w)).Or(hi, h)
			}
			return lo, hi
		case OExtract:
			l, h := x.args[0].bounds()
			if h.BitLen() <= int(x.a)+1 {
				return new(big.Int).Rsh(l, uint(x.b)), new(big.Int).Rsh(h, uint(x.b))
			}
		case OBAnd:
			_, h1 := x.args[0].bounds()
			_, h2 := x.args[1].bounds()
			if h2.Cmp(h1) < 0 {
				h1 = h2
			}
			return nil, h1
		case OBOr, OBXor:
			_, h1 := x.args[0].bounds()
			_, h2 := x.args[1].bounds()
			n := h1.BitLen()
			if h2.BitLen() > n {
				n = h2.BitLen()
			}
			return nil, new(big.Int).Sub(pow2(n), bigOne)
		case OAdd:
			// interval of the linear form with signed coefficients, if it
			// stays within one period of 2^w
			lo, hi := new(big.Int), new(big.Int)
			n := pow2(int(x.w))
			half := pow2(int(x.w) - 1)
			signed := func(c *big.Int) *big.Int {
				if c.Cmp(half) >= 0 {
					return new(big.Int).Sub(c, n)
				}
				return c
			}
			var walk func(y *Term)
			walk = func(y *Term) {
				switch {
				case y.op == OAdd:
					walk(y.args[0])
					walk(y.args[1])
				case y.isC():
					c := signed(y.cv())
					lo.Add(lo, c)
					hi.Add(hi, c)
				case y.op == OMul && y.args[1].isC():
					c := signed(y.args[1].cv())
					l, h := y.args[0].bounds()
					a, b := new(big.Int).Mul(l, c), new(big.Int).Mul(h, c)
					if c.Sign() < 0 {
						a, b = b, a
					}
					lo.Add(lo, a)
					hi.Add(hi, b)
				default:
					l, h := y.bounds()
					lo.Add(lo, l)
					hi.Add(hi, h)
				}
			}
			walk(x)
			q := new(big.Int).Div(lo, n) // floor
			if new(big.Int).Div(hi, n).Cmp(q) == 0 {
				q.Mul(q, n)
				return lo.Sub(lo, q), hi.Sub(hi, q)
			}
		case OMul:
			l1, h1 := x.args[0].bounds()
			l2, h2 := x.args[1].bounds()
			h := new(big.Int).Mul(h1, h2)
			if h.BitLen() <= int(x.w) {
				return new(big.Int).Mul(l1, l2), h
			}
		case OUDiv:
			l1, h1 := x.args[0].bounds()
			l2, h2 := x.args[1].bounds()
			if l2.Sign() > 0 {
				return new(big.Int).Div(l1, h2), new(big.Int).Div(h1, l2)
			}
		case OURem:
			_, h1 := x.args[0].bounds()
			l2, h2 := x.args[1].bounds()
			if l2.Sign() > 0 {
				m := new(big.Int).Sub(h2, bigOne)
				if h1.Cmp(m) < 0 {
					m = h1
				}
				return nil, m
			}
		case OLshr:
			_, h1 := x.args[0].bounds()
			return nil, h1
		case OInt2BV:
			l, h := x.args[0].bounds()
			if l != nil && h != nil && l.Sign() >= 0 && h.BitLen() <= int(x.w) {
				return l, h
			}
		case OBitLen:
			l, h := x.args[0].bounds()
			if l != nil && h != nil {
				n := l.BitLen()
				if h.BitLen() > n {
					n = h.BitLen()
				}
				return bigZero, big.NewInt(int64(n))
			}
			return bigZero, big.NewInt(4096)
		}
		return nil, nil
	}
	if x.k == KInt {
		switch x.op {
		case OSum:
			lo, hi := new(big.Int).Set(x.big), new(big.Int).Set(x.big)
			lok, hik := true, true
			for i, a := range x.args {
				l, h := a.bounds()
				c := x.coefs[i]
				if c.Sign() < 0 {
					l, h = h, l
				}
				if l == nil {
					lok = false
				} else {
					lo.Add(lo, new(big.Int).Mul(c, l))
				}
				if h == nil {
					hik = false
				} else {
					hi.Add(hi, new(big.Int).Mul(c, h))
				}
			}
			if !lok {
				lo = nil
			}
			if !hik {
				hi = nil
			}
			return lo, hi
		case OIMul:
			l1, h1 := x.args[0].bounds()
			l2, h2 := x.args[1].bounds()
			if l1 != nil && l2 != nil && h1 != nil && h2 != nil {
				ps := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
				lo, hi := ps[0], ps[0]
				for _, p := range ps[1:] {
					if p.Cmp(lo) < 0 {
						lo = p
					}
					if p.Cmp(hi) > 0 {
						hi = p
					}
				}
				return lo, hi
			}
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				return new(big.Int).Mul(l1, l2), nil
			}
		case OIDiv:
			l1, h1 := x.args[0].bounds()
			l2, h2 := x.args[1].bounds()
			if l2 != nil && l2.Sign() > 0 && l1 != nil && l1.Sign() >= 0 {
				lo := bigZero
				if h2 != nil {
					lo = new(big.Int).Div(l1, h2)
				}
				var hi *big.Int
				if h1 != nil {
					hi = new(big.Int).Div(h1, l2)
				}
				return lo, hi
			}
			if x.args[1].isC() && x.args[1].big.Sign() > 0 {
				var lo, hi *big.Int
				if l1 != nil {
					lo = new(big.Int).Div(l1, x.args[1].big)
				}
				if h1 != nil {
					hi = new(big.Int).Div(h1, x.args[1].big)
				}
				return lo, hi
			}
		case OIMod:
			l2, h2 := x.args[1].bounds()
			if l2 != nil && l2.Sign() > 0 {
				var hi *big.Int
				if h2 != nil {
					hi = new(big.Int).Sub(h2, bigOne)
				}
				l1, h1 := x.args[0].bounds()
				if h1 != nil && l1 != nil && l1.Sign() >= 0 && (hi == nil || h1.Cmp(hi) < 0) {
					hi = h1
				}
				return bigZero, hi
			}
		case OBV2Nat:
			return x.args[0].bounds()
		}
	}
	return nil, nil
}

// ---------- booleans ----------

func (t *TT) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return t.Bool(a.u == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return t.Ule(a.args[1], a.args[0])
	case OUle:
		return t.Ult(a.args[1], a.args[0])
	}
	return t.nary(ONot, KBool, 0, []*Term{a})
}

func (t *TT) And(xs ...*Term) *Term { return t.andor(OAnd, t.True, t.False, xs) }
func (t *TT) Or(xs ...*Term) *Term  { return t.andor(OOr, t.False, t.True, xs) }

func (t *TT) andor(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[t.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return t.nary(op, KBool, 0, out)
}

func (t *TT) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.u != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return t.Ite(c.args[0], b, a)
	}
	if a.k == KBool {
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
		if b == t.False {
			return t.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// share common high/low parts
	if a.k == KBV && (a.op == OConcat || b.op == OConcat) {
		pa, pb := t.pieces(a), t.pieces(b)
		pa, pb = t.refine(pa, pb)
		same := false
		for i := range pa {
			if pa[i] == pb[i] {
				same = true
			}
		}
		if same {
			out := make([]*Term, len(pa))
			for i := range pa {
				out[i] = t.Ite(c, pa[i], pb[i])
			}
			return t.Concat(out...)
		}
	}
	return t.nary(OIte, a.k, a.w, []*Term{c, a, b})
}

func (t *TT) pieces(a *Term) []*Term {
	if a.op == OConcat {
		return a.args
	}
	return []*Term{a}
}

// refine splits both piece lists (same total width) at the union of boundaries.
func (t *TT) refine(pa, pb []*Term) ([]*Term, []*Term) {
	var oa, ob []*Term
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i == len(pa) {
				break
			}
			ca = pa[i]
			i++
		}
		if cb == nil {
			cb = pb[j]
			j++
		}
		switch {
		case ca.w == cb.w:
			oa, ob = append(oa, ca), append(ob, cb)
			ca, cb = nil, nil
		case ca.w > cb.w:
			oa, ob = append(oa, t.Extract(ca, ca.w-1, ca.w-cb.w)), append(ob, cb)
			ca, cb = t.Extract(ca, ca.w-cb.w-1, 0), nil
		default:
			oa, ob = append(oa, ca), append(ob, t.Extract(cb, cb.w-1, cb.w-ca.w))
			cb, ca = t.Extract(cb, cb.w-ca.w-1, 0), nil
		}
	}
	return oa, ob
}

func (t *TT) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.k != b.k || a.w != b.w {
		panic(fmt.Sprintf("Eq sort mismatch %v/%d %v/%d", a.k, a.w, b.k, b.w))
	}
	if a.isC() && b.isC() {
		return t.False
	}
	if a.k == KBool {
		if a.isC() {
			a, b = b, a
		}
		if b == t.True {
			return a
		}
		if b == t.False {
			return t.Not(a)
		}
		if a == t.Not(b) {
			return t.False
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if a.k != KBool {
		l1, h1 := a.bounds()
		l2, h2 := b.bounds()
		if h1 != nil && l2 != nil && h1.Cmp(l2) < 0 || h2 != nil && l1 != nil && h2.Cmp(l1) < 0 {
			return t.False
		}
	}
	if a.k == KBV && (a.op == OConcat || b.op == OConcat) {
		pa, pb := t.refine(t.pieces(a), t.pieces(b))
		sameB := len(pa) == len(t.pieces(a)) && len(pb) == len(t.pieces(b))
		anyEq := false
		for i := range pa {
			if pa[i] == pb[i] {
				anyEq = true
			}
			if pa[i].isC() && pb[i].isC() && pa[i] != pb[i] {
				return t.False
			}
		}
		if b.isC() || sameB || anyEq {
			cs := make([]*Term, len(pa))
			for i := range pa {
				cs[i] = t.Eq(pa[i], pb[i])
			}
			return t.And(cs...)
		}
	}
	if a.op == OIte && b.isC() {
		x, y := a.args[1], a.args[2]
		if x.isC() || y.isC() {
			ex, ey := t.Eq(x, b), t.Eq(y, b)
			return t.Ite(a.args[0], ex, ey)
		}
	}
	if a.k == KInt {
		if a.op == OBV2Nat && b.op == OBV2Nat && a.args[0].w == b.args[0].w {
			return t.Eq(a.args[0], b.args[0])
		}
		if a.op == OBV2Nat && b.isC() {
			return t.Eq(a.args[0], t.BVb(a.args[0].w, b.big)) // bounds already checked
		}
		// move to difference = 0 in canonical form
		d := t.Sub(a, b)
		if d.isC() {
			return t.Bool(d.big.Sign() == 0)
		}
		l, h := d.bounds()
		if l != nil && l.Sign() > 0 || h != nil && h.Sign() < 0 {
			return t.False
		}
		if d.op == OSum {
			// normalise sign and gcd
			g := new(big.Int)
			for _, c := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if new(big.Int).Mod(d.big, g).Sign() != 0 {
				return t.False
			}
			if d.coefs[0].Sign() < 0 {
				g.Neg(g)
			}
			if g.Cmp(bigOne) != 0 {
				nc := make([]*big.Int, len(d.coefs))
				for i, c := range d.coefs {
					nc[i] = new(big.Int).Quo(c, g)
				}
				d = t.sum(new(big.Int).Quo(d.big, g), d.args, nc)
			}
			// single var: x = c
			if d.op == OSum && len(d.args) == 1 && d.coefs[0].Cmp(bigOne) == 0 && d.args[0].op == OBV2Nat {
				return t.Eq(d.args[0], t.Intb(new(big.Int).Neg(d.big)))
			}
			if p, q := t.bvSides(d); p != nil {
				return t.Eq(p, q)
			}
		}
		return t.nary(OEq, KBool, 0, []*Term{d, t.Intb(bigZero)})
	}
	if a.k == KBV {
		// x + c1 == c2
		if b.isC() && a.op == OAdd && a.args[1].isC() {
			return t.Eq(a.args[0], t.BVb(a.w, new(big.Int).Sub(b.cv(), a.args[1].cv())))
		}
		if b.isC() && a.op == OBXor && a.args[1].isC() {
			return t.Eq(a.args[0], t.BVb(a.w, new(big.Int).Xor(b.cv(), a.args[1].cv())))
		}
		if b.isC() && a.op == OInt2BV {
			l, h := a.args[0].bounds()
			if l != nil && h != nil && l.Sign() >= 0 && h.BitLen() <= int(a.w) {
				return t.Eq(a.args[0], t.Intb(b.cv()))
			}
		}
		if a.op == OInt2BV && b.op == OInt2BV {
			l, h := a.args[0].bounds()
			l2, h2 := b.args[0].bounds()
			if l != nil && h != nil && l.Sign() >= 0 && h.BitLen() <= int(a.w) && l2 != nil && h2 != nil && l2.Sign() >= 0 && h2.BitLen() <= int(a.w) {
				return t.Eq(a.args[0], b.args[0])
			}
		}
		if a.op == OBitLen && b.isC() || b.op == OBitLen && a.isC() {
			if a.isC() {
				a, b = b, a
			}
			n := b.u
			if n == 0 {
				return t.Eq(a.args[0], t.Intb(bigZero))
			}
			x := t.IAbs(a.args[0])
			return t.And(t.Le(t.Intb(pow2(int(n-1))), x), t.Le(x, t.Intb(new(big.Int).Sub(pow2(int(n)), bigOne))))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.nary(OEq, KBool, 0, []*Term{a, b})
}

// ---------- bit-vectors ----------

func (t *TT) fold2(w int32, a, b *Term, f64 func(x, y uint64) uint64, fb func(x, y *big.Int) *big.Int) *Term {
	if w <= 64 {
		return t.BVu(w, f64(a.u, b.u))
	}
	return t.BVb(w, fb(a.cv(), b.cv()))
}

func isZero(a *Term) bool {
	return a.isC() && (a.big == nil && a.u == 0 || a.big != nil && a.big.Sign() == 0)
}
func isOne(a *Term) bool {
	return a.isC() && (a.big == nil && a.u == 1 || a.big != nil && a.big.Cmp(bigOne) == 0)
}
func isOnes(a *Term) bool {
	if !a.isC() {
		return false
	}
	if a.w <= 64 {
		return a.u == mask(a.w)
	}
	return new(big.Int).Add(a.big, bigOne).Cmp(pow2(int(a.w))) == 0
}

func (t *TT) Add(a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		return t.fold2(w, a, b, func(x, y uint64) uint64 { return x + y }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) })
	}
	if a.isC() {
		a, b = b, a
	}
	if isZero(b) {
		return a
	}
	if isZero(a) {
		return b
	}
	if a.op != OAdd && b.op != OAdd {
		// disjoint bits: or
		if r := t.disjoint(a, b); r != nil {
			return r
		}
	}
	var ts []*Term
	cf := map[*Term]*big.Int{}
	k := new(big.Int)
	t.linear(a, bigOne, &ts, cf, k)
	t.linear(b, bigOne, &ts, cf, k)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	M := pow2(int(w))
	for _, x := range ts {
		c := new(big.Int).Mod(cf[x], M)
		if c.Sign() == 0 {
			continue
		}
		y := x
		if c.Cmp(bigOne) != 0 {
			y = t.Mul(x, t.BVb(w, c))
		}
		if r == nil {
			r = y
		} else {
			r = t.nary(OAdd, KBV, w, []*Term{r, y})
		}
	}
	k.Mod(k, M)
	if r == nil {
		return t.BVb(w, k)
	}
	if k.Sign() == 0 {
		return r
	}
	c := t.BVb(w, k)
	if r.op != OAdd {
		if d := t.disjoint(r, c); d != nil {
			return d
		}
	}
	return t.nary(OAdd, KBV, w, []*Term{r, c})
}

// linear adds c*x to the linear form
func (t *TT) linear(x *Term, c *big.Int, ts *[]*Term, cf map[*Term]*big.Int, k *big.Int) {
	switch {
	case x.isC():
		k.Add(k, new(big.Int).Mul(c, x.cv()))
		return
	case x.op == OAdd:
		t.linear(x.args[0], c, ts, cf, k)
		t.linear(x.args[1], c, ts, cf, k)
		return
	case x.op == OMul && x.args[1].isC():
		t.linear(x.args[0], new(big.Int).Mul(c, x.args[1].cv()), ts, cf, k)
		return
	}
	if o, ok := cf[x]; ok {
		o.Add(o, c)
		return
	}
	cf[x] = new(big.Int).Set(c)
	*ts = append(*ts, x)
}

func (t *TT) disjoint(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	pa, pb := t.refine(t.pieces(a), t.pieces(b))
	out := make([]*Term, len(pa))
	for i := range pa {
		if isZero(pa[i]) {
			out[i] = pb[i]
		} else if isZero(pb[i]) {
			out[i] = pa[i]
		} else {
			return nil
		}
	}
	return t.Concat(out...)
}

func (t *TT) Neg(a *Term) *Term { return t.Mul(a, t.BVb(a.w, big.NewInt(-1))) }

func (t *TT) BSub(a, b *Term) *Term {
	if a == b {
		return t.BVu(a.w, 0)
	}
	return t.Add(a, t.Neg(b))
}

func (t *TT) Mul(a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		return t.fold2(w, a, b, func(x, y uint64) uint64 { return x * y }, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) })
	}
	if a.isC() {
		a, b = b, a
	}
	if isZero(b) {
		return b
	}
	if isOne(b) {
		return a
	}
	if b.isC() {
		if a.op == OMul && a.args[1].isC() {
			return t.Mul(a.args[0], t.Mul(a.args[1], b))
		}
		if a.op == OAdd && isOnes(b) {
			return t.Add(t.Mul(a.args[0], b), t.Mul(a.args[1], b))
		}
		c := b.cv()
		if k := int(c.TrailingZeroBits()); c.BitLen() == k+1 {
			return t.Shl(a, t.BVu(w, uint64(k)))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return t.nary(OMul, KBV, w, []*Term{a, b})
}

func (t *TT) UDiv(a, b *Term) *Term {
	w := a.w
	if isZero(b) {
		return t.BVb(w, big.NewInt(-1))
	}
	if a.isC() && b.isC() {
		return t.fold2(w, a, b, func(x, y uint64) uint64 { return x / y }, func(x, y *big.Int) *big.Int { return new(big.Int).Div(x, y) })
	}
	if isOne(b) {
		return a
	}
	if b.isC() {
		c := b.cv()
		if k := int(c.TrailingZeroBits()); c.BitLen() == k+1 {
			return t.Lshr(a, t.BVu(w, uint64(k)))
		}
	}
	_, h1 := a.bounds()
	l2, _ := b.bounds()
	if h1.Cmp(l2) < 0 {
		return t.BVu(w, 0)
	}
	return t.nary(OUDiv, KBV, w, []*Term{a, b})
}

func (t *TT) URem(a, b *Term) *Term {
	w := a.w
	if isZero(b) {
		return a
	}
	if a.isC() && b.isC() {
		return t.fold2(w, a, b, func(x, y uint64) uint64 { return x % y }, func(x, y *big.Int) *big.Int { return new(big.Int).Mod(x, y) })
	}
	if isOne(b) {
		return t.BVu(w, 0)
	}
	if b.isC() {
		c := b.cv()
		if k := int(c.TrailingZeroBits()); c.BitLen() == k+1 {
			return t.Zext(t.Extract(a, int32(k-1), 0), w)
		}
	}
	_, h1 := a.bounds()
	l2, _ := b.bounds()
	if h1.Cmp(l2) < 0 {
		return a
	}
	return t.nary(OURem, KBV, w, []*Term{a, b})
}

func toS(x uint64, w int32) int64 {
	return int64(x<<(64-uint(w))) >> (64 - uint(w))
}

func (t *TT) SDiv(a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() && w <= 64 && b.u != 0 {
		x, y := toS(a.u, w), toS(b.u, w)
		if y == -1 {
			return t.BVu(w, uint64(-x))
		}
		return t.BVu(w, uint64(x/y))
	}
	if t.nonneg(a) && t.nonneg(b) {
		return t.UDiv(a, b)
	}
	return t.nary(OSDiv, KBV, w, []*Term{a, b})
}
func (t *TT) SRem(a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() && w <= 64 && b.u != 0 {
		x, y := toS(a.u, w), toS(b.u, w)
		if y == -1 {
			return t.BVu(w, 0)
		}
		return t.BVu(w, uint64(x%y))
	}
	if t.nonneg(a) && t.nonneg(b) {
		return t.URem(a, b)
	}
	return t.nary(OSRem, KBV, w, []*Term{a, b})
}

func (t *TT) nonneg(a *Term) bool {
	_, h := a.bounds()
	return h.BitLen() < int(a.w)
}

func (t *TT) BNot(a *Term) *Term {
	if a.isC() {
		if a.w <= 64 {
			return t.BVu(a.w, ^a.u)
		}
		return t.BVb(a.w, new(big.Int).Not(a.big))
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OConcat {
		out := make([]*Term, len(a.args))
		for i, x := range a.args {
			out[i] = t.BNot(x)
		}
		return t.Concat(out...)
	}
	return t.nary(OBNot, KBV, a.w, []*Term{a})
}

func (t *TT) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		switch op {
		case OBAnd:
			return t.fold2(w, a, b, func(x, y uint64) uint64 { return x & y }, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) })
		case OBOr:
			return t.fold2(w, a, b, func(x, y uint64) uint64 { return x | y }, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) })
		default:
			return t.fold2(w, a, b, func(x, y uint64) uint64 { return x ^ y }, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) })
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if a == b {
		if op == OBXor {
			return t.BVu(w, 0)
		}
		return a
	}
	if isZero(b) {
		if op == OBAnd {
			return b
		}
		return a
	}
	if isOnes(b) {
		switch op {
		case OBAnd:
			return a
		case OBOr:
			return b
		default:
			return t.BNot(a)
		}
	}
	if b.isC() && (op == OBAnd || op == OBOr) {
		// split const into runs of 0s/1s
		runs := t.runs(b)
		if len(runs) <= 6 || a.op == OConcat {
			var pa []*Term
			pos := w
			for _, r := range runs {
				piece := t.Extract(a, pos-1, pos-r.n)
				if op == OBAnd {
					if !r.one {
						piece = t.BVu(r.n, 0)
					}
				} else if r.one {
					piece = t.BVb(r.n, new(big.Int).Sub(pow2(int(r.n)), bigOne))
				}
				pa = append(pa, piece)
				pos -= r.n
			}
			return t.Concat(pa...)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := t.refine(t.pieces(a), t.pieces(b))
		simp := false
		for i := range pa {
			if pa[i].isC() || pb[i].isC() || pa[i] == pb[i] {
				simp = true
			}
		}
		if simp && len(pa) > 1 {
			out := make([]*Term, len(pa))
			for i := range pa {
				out[i] = t.bitop(op, pa[i], pb[i])
			}
			return t.Concat(out...)
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return t.nary(op, KBV, w, []*Term{a, b})
}

type run struct {
	one bool
	n   int32
}

func (t *TT) runs(c *Term) []run {
	v := c.cv()
	var out []run
	for i := int(c.w) - 1; i >= 0; i-- {
		o := v.Bit(i) == 1
		if len(out) > 0 && out[len(out)-1].one == o {
			out[len(out)-1].n++
		} else {
			out = append(out, run{o, 1})
		}
	}
	return out
}

func (t *TT) BAnd(a, b *Term) *Term { return t.bitop(OBAnd, a, b) }
func (t *TT) BOr(a, b *Term) *Term  { return t.bitop(OBOr, a, b) }
func (t *TT) BXor(a, b *Term) *Term { return t.bitop(OBXor, a, b) }

// shift amounts have the same width as a
func (t *TT) Shl(a, s *Term) *Term {
	if s.isC() {
		n := s.cv()
		if n.Cmp(big.NewInt(int64(a.w))) >= 0 {
			return t.BVu(a.w, 0)
		}
		k := int32(n.Int64())
		if k == 0 {
			return a
		}
		return t.Concat(t.Extract(a, a.w-1-k, 0), t.BVu(k, 0))
	}
	if isZero(a) {
		return a
	}
	return t.nary(OShl, KBV, a.w, []*Term{a, s})
}
func (t *TT) Lshr(a, s *Term) *Term {
	if s.isC() {
		n := s.cv()
		if n.Cmp(big.NewInt(int64(a.w))) >= 0 {
			return t.BVu(a.w, 0)
		}
		k := int32(n.Int64())
		if k == 0 {
			return a
		}
		return t.Concat(t.BVu(k, 0), t.Extract(a, a.w-1, k))
	}
	if isZero(a) {
		return a
	}
	return t.nary(OLshr, KBV, a.w, []*Term{a, s})
}
func (t *TT) Ashr(a, s *Term) *Term {
	if t.nonneg(a) {
		return t.Lshr(a, s)
	}
	if s.isC() {
		n := s.cv()
		k := a.w - 1
		if n.Cmp(big.NewInt(int64(a.w))) < 0 {
			k = int32(n.Int64())
		}
		if k == 0 {
			return a
		}
		return t.Sext(t.Extract(a, a.w-1, k), a.w)
	}
	return t.nary(OAshr, KBV, a.w, []*Term{a, s})
}

func (t *TT) Concat(xs ...*Term) *Term {
	var out []*Term
	var w int32
	for _, x := range xs {
		if x == nil || x.w == 0 {
			continue
		}
		w += x.w
		if x.op == OConcat {
			for _, y := range x.args {
				out = t.cappend(out, y)
			}
		} else {
			out = t.cappend(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return t.nary(OConcat, KBV, w, out)
}

func (t *TT) cappend(out []*Term, y *Term) []*Term {
	if len(out) > 0 {
		p := out[len(out)-1]
		if p.isC() && y.isC() {
			v := new(big.Int).Lsh(p.cv(), uint(y.w))
			v.Or(v, y.cv())
			out[len(out)-1] = t.BVb(p.w+y.w, v)
			return out
		}
		// adjacent extracts
		if p.op == OExtract && y.op == OExtract && p.args[0] == y.args[0] && p.b == y.a+1 {
			out[len(out)-1] = t.Extract(p.args[0], p.a, y.b)
			return out
		}
	}
	return append(out, y)
}

func (t *TT) Extract(x *Term, hi, lo int32) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	if hi < lo {
		return nil
	}
	w := hi - lo + 1
	switch x.op {
	case OConst:
		if x.w <= 64 {
			return t.BVu(w, x.u>>uint(lo))
		}
		return t.BVb(w, new(big.Int).Rsh(x.big, uint(lo)))
	case OExtract:
		return t.Extract(x.args[0], x.b+hi, x.b+lo)
	case OConcat:
		var out []*Term
		pos := x.w
		for _, p := range x.args {
			ph, pl := pos-1, pos-p.w
			pos = pl
			if pl > hi || ph < lo {
				continue
			}
			h, l := ph, pl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, t.Extract(p, h-pl, l-pl))
		}
		return t.Concat(out...)
	case OIte:
		if x.args[1].isC() || x.args[2].isC() {
			return t.Ite(x.args[0], t.Extract(x.args[1], hi, lo), t.Extract(x.args[2], hi, lo))
		}
	case OSext:
		iw := x.args[0].w
		if hi < iw {
			return t.Extract(x.args[0], hi, lo)
		}
	case OBNot, OBAnd, OBOr, OBXor:
		if x.op == OBNot {
			return t.BNot(t.Extract(x.args[0], hi, lo))
		}
		return t.bitop(x.op, t.Extract(x.args[0], hi, lo), t.Extract(x.args[1], hi, lo))
	case OInt2BV:
		if lo == 0 {
			return t.Int2BV(x.args[0], w)
		}
	}
	_, h := x.bounds()
	if h.BitLen() <= int(lo) {
		return t.BVu(w, 0)
	}
	return t.mk(tkey{op: OExtract, k: KBV, w: w, a: hi, b: lo, x: x.id}, []*Term{x}, nil)
}

func (t *TT) Zext(x *Term, w int32) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return t.Extract(x, w-1, 0)
	}
	return t.Concat(t.BVu(w-x.w, 0), x)
}

func (t *TT) Sext(x *Term, w int32) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return t.Extract(x, w-1, 0)
	}
	if x.isC() {
		v := new(big.Int).Set(x.cv())
		if v.Bit(int(x.w)-1) == 1 {
			v.Sub(v, pow2(int(x.w)))
		}
		return t.BVb(w, v)
	}
	if t.nonneg(x) {
		return t.Zext(x, w)
	}
	if x.op == OSext {
		return t.Sext(x.args[0], w)
	}
	return t.mk(tkey{op: OSext, k: KBV, w: w, x: x.id}, []*Term{x}, nil)
}

func (t *TT) Ult(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	l1, h1 := a.bounds()
	l2, h2 := b.bounds()
	if h1.Cmp(l2) < 0 {
		return t.True
	}
	if l1.Cmp(h2) >= 0 {
		return t.False
	}
	if r := t.bitlenCmp(a, b, true); r != nil {
		return r
	}
	if b.isC() && isOne(b) {
		return t.Eq(a, t.BVu(a.w, 0))
	}
	if a.isC() && isZero(a) {
		return t.Not(t.Eq(b, a))
	}
	if r := t.strip(a, b, t.Ult); r != nil {
		return r
	}
	if r := t.iteCmp(a, b, t.Ult); r != nil {
		return r
	}
	return t.nary(OUlt, KBool, 0, []*Term{a, b})
}
func (t *TT) Ule(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	l1, h1 := a.bounds()
	l2, h2 := b.bounds()
	if h1.Cmp(l2) <= 0 {
		return t.True
	}
	if l1.Cmp(h2) > 0 {
		return t.False
	}
	if r := t.bitlenCmp(a, b, false); r != nil {
		return r
	}
	if isZero(b) {
		return t.Eq(a, b)
	}
	if isOne(a) {
		return t.Not(t.Eq(b, t.BVu(b.w, 0)))
	}
	if r := t.strip(a, b, t.Ule); r != nil {
		return r
	}
	if r := t.iteCmp(a, b, t.Ule); r != nil {
		return r
	}
	return t.nary(OUle, KBool, 0, []*Term{a, b})
}

// strip equal leading pieces
func (t *TT) strip(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	if a.op != OConcat && !a.isC() || b.op != OConcat && !b.isC() {
		return nil
	}
	pa, pb := t.refine(t.pieces(a), t.pieces(b))
	i := 0
	for i < len(pa) && pa[i] == pb[i] {
		i++
	}
	if i == 0 || i == len(pa) {
		return nil
	}
	return f(t.Concat(pa[i:]...), t.Concat(pb[i:]...))
}

func (t *TT) iteCmp(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OIte && b.isC() && (a.args[1].isC() || a.args[2].isC()) {
		return t.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OIte && a.isC() && (b.args[1].isC() || b.args[2].isC()) {
		return t.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

// comparisons of OBitLen against constants
func (t *TT) bitlenCmp(a, b *Term, strict bool) *Term {
	if a.op == OBitLen && b.isC() {
		// bitlen(x) < c  <=> |x| < 2^(c-1);  <= c  <=> |x| < 2^c
		c := int64(b.u)
		if strict {
			c--
		}
		if c < 0 {
			return t.False
		}
		return t.Le(t.IAbs(a.args[0]), t.Intb(new(big.Int).Sub(pow2(int(c)), bigOne)))
	}
	if b.op == OBitLen && a.isC() {
		if strict { // c < bitlen  <=> not (bitlen <= c)
			return t.Not(t.bitlenCmp(b, a, false))
		}
		return t.Not(t.bitlenCmp(b, a, true))
	}
	return nil
}

func (t *TT) Slt(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	if a.isC() && b.isC() && a.w <= 64 {
		return t.Bool(toS(a.u, a.w) < toS(b.u, b.w))
	}
	na, nb := t.nonneg(a), t.nonneg(b)
	if na && nb {
		return t.Ult(a, b)
	}
	if na && b.isC() {
		return t.False // b negative const
	}
	if nb && a.isC() {
		return t.True
	}
	if r := t.iteCmp(a, b, t.Slt); r != nil {
		return r
	}
	return t.nary(OSlt, KBool, 0, []*Term{a, b})
}
func (t *TT) Sle(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	return t.Not(t.Slt(b, a))
}

// ---------- ints ----------

func (t *TT) sum(c *big.Int, args []*Term, coefs []*big.Int) *Term {
	type ent struct {
		t *Term
		c *big.Int
	}
	var es []ent
	idx := map[*Term]int{}
	cc := new(big.Int).Set(c)
	var add func(x *Term, k *big.Int)
	add = func(x *Term, k *big.Int) {
		if k.Sign() == 0 {
			return
		}
		if x.isC() {
			cc.Add(cc, new(big.Int).Mul(k, x.big))
			return
		}
		if x.op == OSum {
			cc.Add(cc, new(big.Int).Mul(k, x.big))
			for i, y := range x.args {
				add(y, new(big.Int).Mul(k, x.coefs[i]))
			}
			return
		}
		if i, ok := idx[x]; ok {
			es[i].c = new(big.Int).Add(es[i].c, k)
			return
		}
		idx[x] = len(es)
		es = append(es, ent{x, k})
	}
	for i, a := range args {
		add(a, coefs[i])
	}
	n := 0
	for _, e := range es {
		if e.c.Sign() != 0 {
			es[n] = e
			n++
		}
	}
	es = es[:n]
	if n == 0 {
		return t.Intb(cc)
	}
	if n == 1 && cc.Sign() == 0 && es[0].c.Cmp(bigOne) == 0 {
		return es[0].t
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t.id < es[j].t.id })
	var sb strings.Builder
	as := make([]*Term, n)
	cs := make([]*big.Int, n)
	for i, e := range es {
		as[i], cs[i] = e.t, e.c
		fmt.Fprintf(&sb, "%d:%s,", e.t.id, e.c.Text(62))
	}
	sb.WriteString(cc.Text(62))
	return t.mk(tkey{op: OSum, k: KInt, s: sb.String()}, as, func(x *Term) { x.coefs = cs; x.big = cc })
}

var bigNeg1 = big.NewInt(-1)

func (t *TT) Plus(a, b *Term) *Term {
	return t.sum(bigZero, []*Term{a, b}, []*big.Int{bigOne, bigOne})
}
func (t *TT) Sub(a, b *Term) *Term {
	return t.sum(bigZero, []*Term{a, b}, []*big.Int{bigOne, bigNeg1})
}
func (t *TT) INeg(a *Term) *Term { return t.sum(bigZero, []*Term{a}, []*big.Int{bigNeg1}) }
func (t *TT) IAbs(a *Term) *Term {
	l, h := a.bounds()
	if l != nil && l.Sign() >= 0 {
		return a
	}
	if h != nil && h.Sign() <= 0 {
		return t.INeg(a)
	}
	return t.Ite(t.Le(t.Intb(bigZero), a), a, t.INeg(a))
}
func (t *TT) IMul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		return t.sum(bigZero, []*Term{a}, []*big.Int{b.big})
	}
	// factor constants out of single-term sums
	if a.op == OSum && len(a.args) == 1 && a.big.Sign() == 0 {
		return t.sum(bigZero, []*Term{t.IMul(a.args[0], b)}, []*big.Int{a.coefs[0]})
	}
	if b.op == OSum && len(b.args) == 1 && b.big.Sign() == 0 {
		return t.sum(bigZero, []*Term{t.IMul(a, b.args[0])}, []*big.Int{b.coefs[0]})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.nary(OIMul, KInt, 0, []*Term{a, b})
}

// IDiv / IMod: SMT-LIB semantics (euclidean); divisor must be known non-zero by the caller
func (t *TT) IDiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.big.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.big, b.big, new(big.Int))
		return t.Intb(q)
	}
	if isOne(b) {
		return a
	}
	if b.isC() && b.big.Sign() > 0 {
		l, h := a.bounds()
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(b.big) < 0 {
			return t.Intb(bigZero)
		}
		if a.op == OSum {
			// split off the multiples of b
			var ma, ra []*Term
			var mc, rc []*big.Int
			for i, c := range a.coefs {
				if q, r := new(big.Int).QuoRem(c, b.big, new(big.Int)); r.Sign() == 0 {
					ma, mc = append(ma, a.args[i]), append(mc, q)
				} else {
					ra, rc = append(ra, a.args[i]), append(rc, c)
				}
			}
			if len(ma) > 0 {
				rest := t.sum(a.big, ra, rc)
				return t.Plus(t.sum(bigZero, ma, mc), t.IDiv(rest, b))
			}
			// common gcd of everything
			g := new(big.Int).Set(b.big)
			for _, c := range a.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 {
				nc := make([]*big.Int, len(a.coefs))
				for i, c := range a.coefs {
					nc[i] = new(big.Int).Quo(c, g)
				}
				cq := new(big.Int).Div(a.big, g) // floor: (g*s + c) div (g*d) = (s + c div g) div d
				return t.IDiv(t.sum(cq, a.args, nc), t.Intb(new(big.Int).Quo(b.big, g)))
			}
		}
		if a.op == OIDiv && a.args[1].isC() && a.args[1].big.Sign() > 0 {
			return t.IDiv(a.args[0], t.Intb(new(big.Int).Mul(a.args[1].big, b.big)))
		}
	}
	return t.nary(OIDiv, KInt, 0, []*Term{a, b})
}
func (t *TT) IMod(a, b *Term) *Term {
	if a.isC() && b.isC() && b.big.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.big, b.big, new(big.Int))
		return t.Intb(m)
	}
	if b.isC() && b.big.Sign() > 0 {
		// a - b*(a div b)
		return t.sum(bigZero, []*Term{a, t.IDiv(a, b)}, []*big.Int{bigOne, new(big.Int).Neg(b.big)})
	}
	return t.nary(OIMod, KInt, 0, []*Term{a, b})
}

func (t *TT) Le(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	l1, h1 := a.bounds()
	l2, h2 := b.bounds()
	if h1 != nil && l2 != nil && h1.Cmp(l2) <= 0 {
		return t.True
	}
	if l1 != nil && h2 != nil && l1.Cmp(h2) > 0 {
		return t.False
	}
	if a.op == OBV2Nat && b.isC() {
		return t.Ule(a.args[0], t.BVb(a.args[0].w, b.big)) // in range by bounds check
	}
	if b.op == OBV2Nat && a.isC() {
		return t.Ule(t.BVb(b.args[0].w, a.big), b.args[0])
	}
	if a.op == OBV2Nat && b.op == OBV2Nat {
		w := a.args[0].w
		if b.args[0].w > w {
			w = b.args[0].w
		}
		return t.Ule(t.Zext(a.args[0], w), t.Zext(b.args[0], w))
	}
	d := t.Sub(a, b) // d <= 0
	if d.isC() {
		return t.Bool(d.big.Sign() <= 0)
	}
	l, h := d.bounds()
	if h != nil && h.Sign() <= 0 {
		return t.True
	}
	if l != nil && l.Sign() > 0 {
		return t.False
	}
	if d.op == OSum {
		if len(d.args) == 1 && d.args[0].op == OBV2Nat {
			// c*x + k <= 0
			c := d.coefs[0]
			if c.Sign() > 0 {
				return t.Le(d.args[0], t.Intb(new(big.Int).Div(new(big.Int).Neg(d.big), c)))
			}
			// x >= k/|c| -> ceil
			ac := new(big.Int).Abs(c)
			q := new(big.Int).Add(d.big, new(big.Int).Sub(ac, bigOne))
			q.Div(q, ac)
			return t.Le(t.Intb(q), d.args[0])
		}
		g := new(big.Int)
		for _, c := range d.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			nc := make([]*big.Int, len(d.coefs))
			for i, c := range d.coefs {
				nc[i] = new(big.Int).Quo(c, g)
			}
			// sum + k/g <= 0 -> sum + ceil(k/g) <= 0
			k := new(big.Int).Add(d.big, new(big.Int).Sub(g, bigOne))
			k.Div(k, g)
			d = t.sum(k, d.args, nc)
		}
		if d.op == OSum {
			if p, q := t.bvSides(d); p != nil {
				return t.Ule(p, q)
			}
		}
	}
	return t.nary(OLe, KBool, 0, []*Term{d, t.Intb(bigZero)})
}

// bvSides splits a sum of bit-vector values with coefficients 1 and -1 into the
// positive and the negated negative part, as bit-vectors wide enough for both.
func (t *TT) bvSides(d *Term) (*Term, *Term) {
	if d.op != OSum {
		return nil, nil
	}
	hp, hn := new(big.Int), new(big.Int)
	add := func(c, h *big.Int) {
		if c.Sign() > 0 {
			hp.Add(hp, h)
		} else {
			hn.Add(hn, h)
		}
	}
	for i, a := range d.args {
		if a.op != OBV2Nat || !d.coefs[i].IsInt64() || d.coefs[i].Int64() != 1 && d.coefs[i].Int64() != -1 {
			return nil, nil
		}
		_, h := a.bounds()
		if h == nil {
			return nil, nil
		}
		add(d.coefs[i], h)
	}
	if d.big.Sign() != 0 {
		add(d.big, new(big.Int).Abs(d.big))
	}
	w := int32(max(hp.BitLen(), hn.BitLen(), 1))
	for _, a := range d.args {
		w = max(w, a.args[0].w)
	}
	p, q := t.BVu(w, 0), t.BVu(w, 0)
	put := func(c *big.Int, x *Term) {
		if c.Sign() > 0 {
			p = t.Add(p, x)
		} else {
			q = t.Add(q, x)
		}
	}
	for i, a := range d.args {
		put(d.coefs[i], t.Zext(a.args[0], w))
	}
	if d.big.Sign() != 0 {
		put(d.big, t.BVb(w, new(big.Int).Abs(d.big)))
	}
	return p, q
}
func (t *TT) Lt(a, b *Term) *Term { return t.Not(t.Le(b, a)) }

func (t *TT) BV2Nat(x *Term) *Term {
	if x.isC() {
		return t.Intb(x.cv())
	}
	if x.op == OInt2BV {
		l, h := x.args[0].bounds()
		if l != nil && h != nil && l.Sign() >= 0 && h.BitLen() <= int(x.w) {
			return x.args[0]
		}
	}
	if x.op == OConcat && isZero(x.args[0]) {
		return t.BV2Nat(t.Concat(x.args[1:]...))
	}
	if x.op == OConcat && isZero(x.args[len(x.args)-1]) {
		z := x.args[len(x.args)-1]
		return t.IMul(t.BV2Nat(t.Concat(x.args[:len(x.args)-1]...)), t.Intb(pow2(int(z.w))))
	}
	if x.op == OIte {
		return t.Ite(x.args[0], t.BV2Nat(x.args[1]), t.BV2Nat(x.args[2]))
	}
	if x.op == OAdd {
		_, h1 := x.args[0].bounds()
		_, h2 := x.args[1].bounds()
		if new(big.Int).Add(h1, h2).BitLen() <= int(x.w) {
			return t.Plus(t.BV2Nat(x.args[0]), t.BV2Nat(x.args[1]))
		}
	}
	if x.op == OMul {
		_, h1 := x.args[0].bounds()
		_, h2 := x.args[1].bounds()
		if new(big.Int).Mul(h1, h2).BitLen() <= int(x.w) {
			return t.IMul(t.BV2Nat(x.args[0]), t.BV2Nat(x.args[1]))
		}
	}
	if x.op == OExtract && x.b == 0 {
		_, h := x.args[0].bounds()
		if h.BitLen() <= int(x.w) {
			return t.BV2Nat(x.args[0])
		}
	}
	return t.nary(OBV2Nat, KInt, 0, []*Term{x})
}

func (t *TT) Int2BV(x *Term, w int32) *Term {
	if x.isC() {
		return t.BVb(w, x.big)
	}
	if x.op == OBV2Nat {
		return t.Zext(x.args[0], w)
	}
	if x.op == OIte {
		return t.Ite(x.args[0], t.Int2BV(x.args[1], w), t.Int2BV(x.args[2], w))
	}
	if x.op == OSum {
		// push into bit-vectors when every leaf is a bit-vector
		ok := true
		for _, a := range x.args {
			if a.op != OBV2Nat {
				ok = false
			}
		}
		if ok {
			r := t.BVb(w, x.big)
			for i, a := range x.args {
				r = t.Add(r, t.Mul(t.Zext(a.args[0], w), t.BVb(w, x.coefs[i])))
			}
			return r
		}
	}
	return t.mk(tkey{op: OInt2BV, k: KBV, w: w, x: x.id}, []*Term{x}, nil)
}

func (t *TT) BitLen(x *Term) *Term {
	if x.isC() {
		return t.BVu(64, uint64(x.big.BitLen()))
	}
	return t.mk(tkey{op: OBitLen, k: KBV, w: 64, x: x.id}, []*Term{x}, nil)
}

// ---------- printing ----------

func sortStr(k Kind, w int32) string {
	switch k {
	case KBool:
		return "Bool"
	case KInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func intStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (x *Term) ref() string {
	switch x.op {
	case OConst:
		switch x.k {
		case KBool:
			if x.u != 0 {
				return "true"
			}
			return "false"
		case KInt:
			return intStr(x.big)
		}
		if x.w%4 == 0 {
			s := x.cv().Text(16)
			return "#x" + strings.Repeat("0", int(x.w)/4-len(s)) + s
		}
		s := x.cv().Text(2)
		return "#b" + strings.Repeat("0", int(x.w)-len(s)) + s
	case OVar:
		return "|" + x.name + "|"
	}
	return fmt.Sprintf("t%d", x.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIMul: "*", OIDiv: "div", OIMod: "mod", OLe: "<="}

func (x *Term) body() string {
	var sb strings.Builder
	args := func() {
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
	}
	switch x.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d)", x.a, x.b)
		args()
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", x.w-x.args[0].w)
		args()
	case OSum:
		sb.WriteString("(+")
		for i, a := range x.args {
			if x.coefs[i].Cmp(bigOne) == 0 {
				sb.WriteString(" " + a.ref())
			} else {
				sb.WriteString(" (* " + intStr(x.coefs[i]) + " " + a.ref() + ")")
			}
		}
		if x.big.Sign() != 0 || len(x.args) == 1 {
			sb.WriteString(" " + intStr(x.big))
		}
	case OBV2Nat:
		sb.WriteString("(bv2nat")
		args()
	case OInt2BV:
		fmt.Fprintf(&sb, "((_ int2bv %d)", x.w)
		args()
	case OUF:
		if len(x.args) == 0 {
			return "|" + x.name + "|"
		}
		sb.WriteString("(|" + x.name + "|")
		args()
	case OBitLen:
		// sum of ite ladder
		sb.WriteString("(bvadd #x0000000000000000")
		_, h := x.bounds()
		n := int(h.Int64())
		for i := 0; i < n; i++ {
			ab := "(ite (< " + x.args[0].ref() + " 0) (- " + x.args[0].ref() + ") " + x.args[0].ref() + ")"
			fmt.Fprintf(&sb, " (ite (>= %s %s) #x0000000000000001 #x0000000000000000)", ab, pow2(i).String())
		}
		if n == 0 {
			sb.WriteString(" #x0000000000000000")
		}
	default:
		sb.WriteString("(" + opNames[x.op])
		args()
	}
	sb.WriteString(")")
	return sb.String()
}

// ---------- evaluation under a model ----------

type Model struct {
	vals map[string]*big.Int // var name -> value (bool as 0/1)
	memo map[int32]*big.Int
	ufs  map[string]*big.Int
}

func newModel() *Model {
	return &Model{vals: map[string]*big.Int{}, memo: map[int32]*big.Int{}, ufs: map[string]*big.Int{}}
}

// fork copies the model for use with another term table
func (m *Model) fork() *Model {
	r := newModel()
	for k, v := range m.vals {
		r.vals[k] = v
	}
	for k, v := range m.ufs {
		r.ufs[k] = v
	}
	return r
}

func (m *Model) Eval(x *Term) *big.Int {
	if x.isC() {
		return x.cv()
	}
	if v, ok := m.memo[x.id]; ok {
		return v
	}
	v := m.eval(x)
	m.memo[x.id] = v
	return v
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func (m *Model) eval(x *Term) *big.Int {
	norm := func(v *big.Int) *big.Int {
		if v.Sign() < 0 || v.BitLen() > int(x.w) {
			return new(big.Int).And(v, new(big.Int).Sub(pow2(int(x.w)), bigOne))
		}
		return v
	}
	sg := func(v *big.Int, w int32) *big.Int {
		if v.Bit(int(w)-1) == 1 {
			return new(big.Int).Sub(v, pow2(int(w)))
		}
		return v
	}
	switch x.op {
	case OVar:
		if v, ok := m.vals[x.name]; ok {
			return v
		}
		v := bigZero
		if x.k == KInt && x.lo != nil && x.lo.Sign() > 0 {
			v = x.lo
		}
		m.vals[x.name] = v
		return v
	case OUF:
		var sb strings.Builder
		sb.WriteString(x.name)
		for _, a := range x.args {
			sb.WriteString(",")
			sb.WriteString(m.Eval(a).Text(62))
		}
		k := sb.String()
		if v, ok := m.ufs[k]; ok {
			return v
		}
		v := bigZero
		m.ufs[k] = v
		return v
	case OIte:
		if m.Eval(x.args[0]).Sign() != 0 {
			return m.Eval(x.args[1])
		}
		return m.Eval(x.args[2])
	case OAnd:
		for _, a := range x.args {
			if m.Eval(a).Sign() == 0 {
				return bigZero
			}
		}
		return bigOne
	case OOr:
		for _, a := range x.args {
			if m.Eval(a).Sign() != 0 {
				return bigOne
			}
		}
		return bigZero
	case OSum:
		r := new(big.Int).Set(x.big)
		for i, a := range x.args {
			r.Add(r, new(big.Int).Mul(x.coefs[i], m.Eval(a)))
		}
		return r
	case OConcat:
		r := new(big.Int)
		for _, a := range x.args {
			r.Lsh(r, uint(a.w)).Or(r, m.Eval(a))
		}
		return r
	}
	a := m.Eval(x.args[0])
	var b *big.Int
	if len(x.args) > 1 {
		b = m.Eval(x.args[1])
	}
	switch x.op {
	case ONot:
		return b2i(a.Sign() == 0)
	case OEq:
		return b2i(a.Cmp(b) == 0)
	case OAdd:
		return norm(new(big.Int).Add(a, b))
	case OMul:
		return norm(new(big.Int).Mul(a, b))
	case OUDiv:
		if b.Sign() == 0 {
			return norm(big.NewInt(-1))
		}
		return new(big.Int).Div(a, b)
	case OURem:
		if b.Sign() == 0 {
			return a
		}
		return new(big.Int).Mod(a, b)
	case OSDiv, OSRem:
		sa, sb := sg(a, x.w), sg(b, x.w)
		if sb.Sign() == 0 {
			if x.op == OSRem {
				return a
			}
			if sa.Sign() < 0 {
				return bigOne
			}
			return norm(big.NewInt(-1))
		}
		if x.op == OSDiv {
			return norm(new(big.Int).Quo(sa, sb))
		}
		return norm(new(big.Int).Rem(sa, sb))
	case OBAnd:
		return new(big.Int).And(a, b)
	case OBOr:
		return new(big.Int).Or(a, b)
	case OBXor:
		return new(big.Int).Xor(a, b)
	case OBNot:
		return norm(new(big.Int).Not(a))
	case OShl:
		if b.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return bigZero
		}
		return norm(new(big.Int).Lsh(a, uint(b.Uint64())))
	case OLshr:
		if b.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return bigZero
		}
		return new(big.Int).Rsh(a, uint(b.Uint64()))
	case OAshr:
		s := sg(a, x.w)
		n := uint(x.w)
		if b.Cmp(big.NewInt(int64(x.w))) < 0 {
			n = uint(b.Uint64())
		}
		return norm(new(big.Int).Rsh(s, n))
	case OExtract:
		r := new(big.Int).Rsh(a, uint(x.b))
		return norm(r)
	case OSext:
		return norm(sg(a, x.args[0].w))
	case OUlt:
		return b2i(a.Cmp(b) < 0)
	case OUle:
		return b2i(a.Cmp(b) <= 0)
	case OSlt:
		return b2i(sg(a, x.args[0].w).Cmp(sg(b, x.args[0].w)) < 0)
	case OSle:
		return b2i(sg(a, x.args[0].w).Cmp(sg(b, x.args[0].w)) <= 0)
	case OIMul:
		return new(big.Int).Mul(a, b)
	case OIDiv, OIMod:
		if b.Sign() == 0 {
			return bigZero
		}
		q, r := new(big.Int).DivMod(a, b, new(big.Int))
		if x.op == OIDiv {
			return q
		}
		return r
	case OLe:
		return b2i(a.Cmp(b) <= 0)
	case OBV2Nat:
		return a
	case OInt2BV:
		return norm(a)
	case OBitLen:
		return big.NewInt(int64(a.BitLen()))
	}
	panic("eval op")
}

var _ = bits.Len

// RawLe builds a <= b without using the recorded bounds (used to assert those bounds)
func (t *TT) RawLe(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Bool(a.cv().Cmp(b.cv()) <= 0)
	}
	return t.mk(tkey{op: OLe, k: KBool, x: a.id, y: b.id}, []*Term{a, b}, nil)
}

// str renders a term for diagnostics (depth-limited).
func (x *Term) str(d int) string {
	if len(x.args) == 0 {
		return strings.ReplaceAll(x.body(), "\n", "")
	}
	if d == 0 {
		return fmt.Sprintf("#%d:%d", x.op, x.w)
	}
	var sb strings.Builder
	nm := opNames[x.op]
	if x.op == OUF || nm == "" {
		nm = fmt.Sprintf("op%d%s", x.op, x.name)
	}
	if x.op == OExtract {
		nm = fmt.Sprintf("ext[%d:%d]", x.a, x.b)
	}
	sb.WriteString("(" + nm)
	for i, a := range x.args {
		if i > 12 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
