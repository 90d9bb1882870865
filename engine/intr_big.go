package main

import (
	"math/big"
	"strings"
)

// big.Int is modelled as a mathematical integer kept in the struct's "abs" slot.

func (m *Machine) bigOf(ptr V) *BigV {
	if ptr.p == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil *big.Int)")
	}
	a := m.agg(ptr)
	v := a.e[1]
	switch b := v.p.(type) {
	case nil:
		return &BigV{c: bigZero}
	case *BigV:
		return b
	}
	m.bad(v, "big.Int")
	return nil
}

func (m *Machine) bt(b *BigV) *Term {
	if b.c != nil {
		return m.tt.Intb(b.c)
	}
	return b.t
}

func (m *Machine) mkBig(t *Term) *BigV {
	if t.isC() {
		return &BigV{c: new(big.Int).Set(t.cv())}
	}
	return &BigV{t: t}
}

func (m *Machine) setBig(ptr V, b *BigV) V {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if ptr.p == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil *big.Int)")
	}
	m.write(m.agg(ptr), 1, V{p: b})
	return ptr
}

func (m *Machine) newBig(b *BigV) V {
	a := m.newAgg(2)
	a.e[1] = V{p: b}
	return ptrV(a)
}

// bytesToInt: big-endian unsigned
func (m *Machine) bytesToInt(b []V) *BigV {
	if c, ok := concBytes(b); ok {
		return &BigV{c: new(big.Int).SetBytes(c)}
	}
	return m.mkBig(m.tt.BV2Nat(m.bytesTerm(b)))
}

func (m *Machine) signOf(t *Term) V { // -1,0,1 as int
	z := m.tt.Inti(0)
	i64 := ik{64, true}
	return i64.mkV(m.tt.Ite(m.tt.Lt(t, z), m.tt.BVu(64, ^uint64(0)), m.tt.Ite(m.tt.Eq(t, z), m.tt.BVu(64, 0), m.tt.BVu(64, 1))))
}

// byteLen forks on the number of bytes needed for |t|
func (m *Machine) byteLen(t *Term) int {
	ab := m.tt.IAbs(t)
	_, hi := ab.bounds()
	max := 64
	if hi != nil {
		max = (hi.BitLen() + 7) / 8
	}
	for n := 0; n < max; n++ {
		if m.decide(m.tt.Lt(ab, m.tt.Intb(pow2(8*n)))) {
			return n
		}
	}
	if hi == nil && !m.decide(m.tt.Lt(ab, m.tt.Intb(pow2(8*max)))) {
		m.unsupported("unbounded big.Int bytes")
	}
	return max
}

func init() {
	B := "(*math/big.Int)."
	i64 := ik{64, true}
	u64 := ik{64, false}
	bin := func(name string, conc func(z, x, y *big.Int), sym func(m *Machine, x, y *Term) *Term) {
		def(B+name, func(m *Machine, fn *Fn, a []V) V {
			x, y := m.bigOf(a[1]), m.bigOf(a[2])
			if x.c != nil && y.c != nil {
				z := new(big.Int)
				conc(z, x.c, y.c)
				return m.setBig(a[0], &BigV{c: z})
			}
			return m.setBig(a[0], m.mkBig(sym(m, m.bt(x), m.bt(y))))
		})
	}
	bin("Add", func(z, x, y *big.Int) { z.Add(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.Plus(x, y) })
	bin("Sub", func(z, x, y *big.Int) { z.Sub(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.Sub(x, y) })
	bin("Mul", func(z, x, y *big.Int) { z.Mul(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.IMul(x, y) })
	divz := func(m *Machine, y *BigV) {
		if y.c != nil {
			if y.c.Sign() == 0 {
				m.goPanicStr("division by zero")
			}
			return
		}
		if m.decide(m.tt.Eq(y.t, m.tt.Inti(0))) {
			m.goPanicStr("division by zero")
		}
	}
	// euclidean div/mod for any nonzero divisor; our IDiv is floor for positive divisors
	eucl := func(m *Machine, x, y *Term) (q, r *Term) {
		tt := m.tt
		if y.isC() && y.cv().Sign() > 0 {
			return tt.IDiv(x, y), tt.IMod(x, y)
		}
		lo, _ := y.bounds()
		if lo != nil && lo.Sign() > 0 {
			return tt.IDiv(x, y), tt.IMod(x, y)
		}
		if m.decide(tt.Lt(tt.Inti(0), y)) {
			return tt.IDiv(x, y), tt.IMod(x, y)
		}
		ny := tt.INeg(y)
		return tt.INeg(tt.IDiv(x, ny)), tt.IMod(x, ny)
	}
	trunc := func(m *Machine, x, y *Term) (q, r *Term) {
		tt := m.tt
		ax, ay := tt.IAbs(x), tt.IAbs(y)
		q0, r0 := tt.IDiv(ax, ay), tt.IMod(ax, ay)
		z := tt.Inti(0)
		nx, ny := tt.Lt(x, z), tt.Lt(y, z)
		q = tt.Ite(tt.Not(tt.Eq(nx, ny)), tt.INeg(q0), q0)
		r = tt.Ite(nx, tt.INeg(r0), r0)
		return
	}
	def(B+"Quo", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		if x.c != nil && y.c != nil {
			return m.setBig(a[0], &BigV{c: new(big.Int).Quo(x.c, y.c)})
		}
		q, _ := trunc(m, m.bt(x), m.bt(y))
		return m.setBig(a[0], m.mkBig(q))
	})
	def(B+"Rem", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		if x.c != nil && y.c != nil {
			return m.setBig(a[0], &BigV{c: new(big.Int).Rem(x.c, y.c)})
		}
		_, r := trunc(m, m.bt(x), m.bt(y))
		return m.setBig(a[0], m.mkBig(r))
	})
	def(B+"QuoRem", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		q, r := trunc(m, m.bt(x), m.bt(y))
		m.setBig(a[0], m.mkBig(q))
		m.setBig(a[3], m.mkBig(r))
		return tupV(a[0], a[3])
	})
	def(B+"Div", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		if x.c != nil && y.c != nil {
			return m.setBig(a[0], &BigV{c: new(big.Int).Div(x.c, y.c)})
		}
		q, _ := eucl(m, m.bt(x), m.bt(y))
		return m.setBig(a[0], m.mkBig(q))
	})
	def(B+"Mod", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		if x.c != nil && y.c != nil {
			return m.setBig(a[0], &BigV{c: new(big.Int).Mod(x.c, y.c)})
		}
		_, r := eucl(m, m.bt(x), m.bt(y))
		return m.setBig(a[0], m.mkBig(r))
	})
	def(B+"DivMod", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		divz(m, y)
		q, r := eucl(m, m.bt(x), m.bt(y))
		m.setBig(a[0], m.mkBig(q))
		m.setBig(a[3], m.mkBig(r))
		return tupV(a[0], a[3])
	})
	un := func(name string, conc func(z, x *big.Int), sym func(m *Machine, x *Term) *Term) {
		def(B+name, func(m *Machine, fn *Fn, a []V) V {
			x := m.bigOf(a[1])
			if x.c != nil {
				z := new(big.Int)
				conc(z, x.c)
				return m.setBig(a[0], &BigV{c: z})
			}
			if sym == nil {
				m.unsupported("big.Int.%s on symbolic", name)
			}
			return m.setBig(a[0], m.mkBig(sym(m, x.t)))
		})
	}
	un("Neg", func(z, x *big.Int) { z.Neg(x) }, func(m *Machine, x *Term) *Term { return m.tt.INeg(x) })
	un("Abs", func(z, x *big.Int) { z.Abs(x) }, func(m *Machine, x *Term) *Term { return m.tt.IAbs(x) })
	un("Set", func(z, x *big.Int) { z.Set(x) }, func(m *Machine, x *Term) *Term { return x })
	un("Sqrt", func(z, x *big.Int) { z.Sqrt(x) }, nil)
	un("Not", func(z, x *big.Int) { z.Not(x) }, func(m *Machine, x *Term) *Term { return m.tt.Sub(m.tt.Inti(-1), x) })
	def("math/big.NewInt", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return m.newBig(&BigV{c: big.NewInt(int64(a[0].u))})
		}
		return m.newBig(m.mkBig(m.sIntOf(a[0], 64)))
	})
	def(B+"SetInt64", func(m *Machine, fn *Fn, a []V) V {
		if a[1].p == nil {
			return m.setBig(a[0], &BigV{c: big.NewInt(int64(a[1].u))})
		}
		return m.setBig(a[0], m.mkBig(m.sIntOf(a[1], 64)))
	})
	def(B+"SetUint64", func(m *Machine, fn *Fn, a []V) V {
		return m.setBig(a[0], m.mkBig(m.tt.BV2Nat(m.term(a[1], 64))))
	})
	def(B+"SetBytes", func(m *Machine, fn *Fn, a []V) V {
		b := m.sliceV(a[1])
		if len(b) == 0 {
			return m.setBig(a[0], &BigV{c: bigZero})
		}
		return m.setBig(a[0], m.bytesToInt(b))
	})
	def(B+"SetString", func(m *Machine, fn *Fn, a []V) V {
		if d, ok := m.decOf(a[1]); ok && a[2].p == nil && (a[2].u == 10 || a[2].u == 0) {
			m.setBig(a[0], d)
			return tupV(a[0], bV(true))
		}
		s := m.concStr(a[1])
		z, ok := new(big.Int).SetString(s, int(m.concretize(a[2], i64)))
		if !ok {
			return tupV(V{}, bV(false))
		}
		m.setBig(a[0], &BigV{c: z})
		return tupV(a[0], bV(true))
	})
	def(B+"UnmarshalText", func(m *Machine, fn *Fn, a []V) V {
		v := mkStr(append([]V{}, m.sliceV(a[1])...))
		if d, ok := m.decOf(v); ok {
			m.setBig(a[0], d)
			return V{}
		}
		z, ok := new(big.Int).SetString(m.concStr(v), 0)
		if !ok {
			return m.errVal(sV("math/big: cannot unmarshal into a *big.Int"))
		}
		m.setBig(a[0], &BigV{c: z})
		return V{}
	})
	def(B+"MarshalText", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return tupV(m.bytesV([]byte("<nil>")), V{})
		}
		b := m.bigOf(a[0])
		if b.c != nil {
			return tupV(m.bytesV([]byte(b.c.String())), V{})
		}
		return tupV(m.mkSlice(append([]V{}, m.strBytes(m.decStr(b))...)), V{})
	})
	cmpF := func(abs bool) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			x, y := m.bigOf(a[0]), m.bigOf(a[1])
			if x.c != nil && y.c != nil {
				if abs {
					return iV(x.c.CmpAbs(y.c))
				}
				return iV(x.c.Cmp(y.c))
			}
			p, q := m.bt(x), m.bt(y)
			if abs {
				p, q = m.tt.IAbs(p), m.tt.IAbs(q)
			}
			return i64.mkV(m.tt.Ite(m.tt.Lt(p, q), m.tt.BVu(64, ^uint64(0)), m.tt.Ite(m.tt.Eq(p, q), m.tt.BVu(64, 0), m.tt.BVu(64, 1))))
		}
	}
	defp(B+"Cmp", cmpF(false))
	defp(B+"CmpAbs", cmpF(true))
	defp(B+"Sign", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		if x.c != nil {
			return iV(x.c.Sign())
		}
		return m.signOf(x.t)
	})
	defp(B+"IsInt64", func(m *Machine, fn *Fn, a []V) V {
		x := m.bt(m.bigOf(a[0]))
		return boolV(m.tt.And(m.tt.Le(m.tt.Intb(new(big.Int).Neg(pow2(63))), x), m.tt.Lt(x, m.tt.Intb(pow2(63)))))
	})
	defp(B+"IsUint64", func(m *Machine, fn *Fn, a []V) V {
		x := m.bt(m.bigOf(a[0]))
		return boolV(m.tt.And(m.tt.Le(m.tt.Inti(0), x), m.tt.Lt(x, m.tt.Intb(pow2(64)))))
	})
	defp(B+"Int64", func(m *Machine, fn *Fn, a []V) V {
		return i64.mkV(m.tt.Int2BV(m.bt(m.bigOf(a[0])), 64))
	})
	defp(B+"Uint64", func(m *Machine, fn *Fn, a []V) V {
		return u64.mkV(m.tt.Int2BV(m.bt(m.bigOf(a[0])), 64))
	})
	defp(B+"BitLen", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		if x.c != nil {
			return iV(x.c.BitLen())
		}
		return i64.mkV(m.tt.BitLen(x.t))
	})
	def(B+"TrailingZeroBits", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		if x.c == nil {
			m.unsupported("TrailingZeroBits")
		}
		return V{u: uint64(x.c.TrailingZeroBits())}
	})
	def(B+"Bytes", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		if x.c != nil {
			return m.bytesV(x.c.Bytes())
		}
		n := m.byteLen(x.t)
		if n == 0 {
			return m.mkSlice(nil)
		}
		return m.mkSlice(m.termBytes(m.tt.Int2BV(m.tt.IAbs(x.t), int32(8*n))))
	})
	def(B+"FillBytes", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		buf := m.sliceV(a[1])
		n := len(buf)
		t := m.tt.IAbs(m.bt(x))
		if m.decide(m.tt.Le(m.tt.Intb(pow2(8*n)), t)) {
			m.goPanicStr("math/big: buffer too small to fit value")
		}
		if n > 0 {
			s := a[1].p.(*Slice)
			for i, b := range m.termBytes(m.tt.Int2BV(t, int32(8*n))) {
				m.write(s.a, s.off+i, b)
			}
		}
		return a[1]
	})
	def(B+"Bit", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		i := int(m.concretize(a[1], i64))
		if x.c != nil {
			return V{u: uint64(x.c.Bit(i))}
		}
		b := m.tt.Int2BV(x.t, int32(i+1))
		return u64.mkV(m.tt.Zext(m.tt.Extract(b, int32(i), int32(i)), 64))
	})
	def(B+"Lsh", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[1])
		n := int(m.concretize(a[2], u64))
		if n > 4096 {
			m.unsupported("big shift")
		}
		return m.setBig(a[0], m.mkBig(m.tt.IMul(m.bt(x), m.tt.Intb(pow2(n)))))
	})
	def(B+"Rsh", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[1])
		n := int(m.concretize(a[2], u64))
		if n > 4096 {
			n = 4096
		}
		return m.setBig(a[0], m.mkBig(m.tt.IDiv(m.bt(x), m.tt.Intb(pow2(n)))))
	})
	def(B+"Exp", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		var mod *big.Int
		if a[3].p != nil {
			mb := m.bigOf(a[3])
			if mb.c == nil {
				m.unsupported("big Exp symbolic modulus")
			}
			mod = mb.c
		}
		if x.c != nil && y.c != nil {
			if mod == nil && y.c.BitLen() > 20 {
				m.unsupported("huge exp")
			}
			return m.setBig(a[0], &BigV{c: new(big.Int).Exp(x.c, y.c, mod)})
		}
		if y.c != nil && mod == nil && y.c.IsInt64() && y.c.Int64() <= 8 {
			r := m.tt.Inti(1)
			for i := int64(0); i < y.c.Int64(); i++ {
				r = m.tt.IMul(r, x.t)
			}
			return m.setBig(a[0], m.mkBig(r))
		}
		if x.c != nil && mod == nil {
			lo, hi := y.t.bounds()
			if lo != nil && hi != nil && hi.IsInt64() && lo.Sign() >= 0 && hi.Int64() <= 300 {
				// table over the exponent
				var r *Term
				for e := hi.Int64(); e >= lo.Int64(); e-- {
					p := m.tt.Intb(new(big.Int).Exp(x.c, big.NewInt(e), nil))
					if r == nil {
						r = p
					} else {
						r = m.tt.Ite(m.tt.Eq(y.t, m.tt.Inti(e)), p, r)
					}
				}
				return m.setBig(a[0], m.mkBig(r))
			}
		}
		m.unsupported("big Exp symbolic")
		return V{}
	})
	bitop := func(name string, conc func(z, x, y *big.Int), sym func(m *Machine, x, y *Term) *Term) {
		def(B+name, func(m *Machine, fn *Fn, a []V) V {
			x, y := m.bigOf(a[1]), m.bigOf(a[2])
			if x.c != nil && y.c != nil {
				z := new(big.Int)
				conc(z, x.c, y.c)
				return m.setBig(a[0], &BigV{c: z})
			}
			p, q := m.bt(x), m.bt(y)
			_, h1 := p.bounds()
			_, h2 := q.bounds()
			l1, _ := p.bounds()
			l2, _ := q.bounds()
			if h1 == nil || h2 == nil || l1 == nil || l2 == nil || l1.Sign() < 0 || l2.Sign() < 0 {
				m.unsupported("big bit operation on unbounded/negative symbolic")
			}
			w := int32(h1.BitLen())
			if int32(h2.BitLen()) > w {
				w = int32(h2.BitLen())
			}
			if w == 0 {
				w = 1
			}
			return m.setBig(a[0], m.mkBig(m.tt.BV2Nat(sym(m, m.tt.Int2BV(p, w), m.tt.Int2BV(q, w)))))
		})
	}
	bitop("And", func(z, x, y *big.Int) { z.And(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.BAnd(x, y) })
	bitop("Or", func(z, x, y *big.Int) { z.Or(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.BOr(x, y) })
	bitop("Xor", func(z, x, y *big.Int) { z.Xor(x, y) }, func(m *Machine, x, y *Term) *Term { return m.tt.BXor(x, y) })
	str := func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return sV("<nil>")
		}
		b := m.bigOf(a[0])
		if b.c != nil {
			return sV(b.c.String())
		}
		return m.decStr(b)
	}
	def(B+"String", str)
	def(B+"Text", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return sV("<nil>")
		}
		b := m.bigOf(a[0])
		base := int(m.concretize(a[1], i64))
		if b.c != nil {
			return sV(b.c.Text(base))
		}
		if base == 10 {
			return m.decStr(b)
		}
		return V{p: &OpaqueStr{desc: "big.Text"}}
	})
	def(B+"Append", func(m *Machine, fn *Fn, a []V) V {
		b := m.bigOf(a[0])
		base := int(m.concretize(a[2], i64))
		if b.c == nil {
			if base != 10 {
				m.unsupported("big.Append")
			}
			return m.appendV(a[1], append([]V{}, m.strBytes(m.decStr(b))...), u8T)
		}
		var e []V
		for _, c := range []byte(b.c.Text(base)) {
			e = append(e, V{u: uint64(c)})
		}
		return m.appendV(a[1], e, u8T)
	})
	def(B+"SetBit", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[1])
		if x.c == nil {
			m.unsupported("SetBit")
		}
		return m.setBig(a[0], &BigV{c: new(big.Int).SetBit(x.c, int(m.concretize(a[2], i64)), uint(m.concretize(a[3], u64)))})
	})
	def(B+"ModInverse", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.bigOf(a[1]), m.bigOf(a[2])
		if x.c == nil || y.c == nil {
			m.unsupported("ModInverse")
		}
		z := new(big.Int).ModInverse(x.c, y.c)
		if z == nil {
			return V{}
		}
		return m.setBig(a[0], &BigV{c: z})
	})
	def(B+"Bits", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		if x.c == nil {
			m.unsupported("big.Bits")
		}
		var e []V
		for _, w := range x.c.Bits() {
			e = append(e, V{u: uint64(w)})
		}
		return m.mkSlice(e)
	})
	def(B+"Format", zeroIntr)

	// ---- uint256 ----
	U := "(*github.com/holiman/uint256.Int)."
	get := func(m *Machine, p V) *Term {
		if p.p == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil *uint256.Int)")
		}
		e := m.agg(p).e
		return m.tt.Concat(m.term(e[3], 64), m.term(e[2], 64), m.term(e[1], 64), m.term(e[0], 64))
	}
	put := func(m *Machine, p V, t *Term) V {
		if m.spec > 0 {
			panic(specAbort{})
		}
		if p.p == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil *uint256.Int)")
		}
		a := m.agg(p)
		for i := 0; i < 4; i++ {
			m.write(a, i, u64.mkV(m.tt.Extract(t, int32(64*i+63), int32(64*i))))
		}
		return p
	}
	fromBig := func(m *Machine, z V, b *BigV) V {
		t := m.bt(b)
		put(m, z, m.tt.Int2BV(t, 256))
		lim := m.tt.Intb(pow2(256))
		return boolV(m.tt.Or(m.tt.Le(lim, t), m.tt.Le(t, m.tt.INeg(lim))))
	}
	def("github.com/holiman/uint256.FromBig", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return tupV(V{}, bV(false))
		}
		z := ptrV(m.newAgg(4))
		o := fromBig(m, z, m.bigOf(a[0]))
		return tupV(z, o)
	})
	def("github.com/holiman/uint256.MustFromBig", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		z := ptrV(m.newAgg(4))
		o := fromBig(m, z, m.bigOf(a[0]))
		if m.decide(m.bterm(o)) {
			m.goPanicStr("overflow")
		}
		return z
	})
	def(U+"SetFromBig", func(m *Machine, fn *Fn, a []V) V { return fromBig(m, a[0], m.bigOf(a[1])) })
	def(U+"ToBig", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		return m.newBig(m.mkBig(m.tt.BV2Nat(get(m, a[0]))))
	})
	def(U+"IntoBig", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		t := m.mkBig(m.tt.BV2Nat(get(m, a[0])))
		pp := m.load(a[1])
		if pp.p == nil {
			m.store(a[1], m.newBig(t))
			return V{}
		}
		m.setBig(pp, t)
		return V{}
	})
	ub := func(name string, f func(m *Machine, x, y *Term) *Term) {
		def(U+name, func(m *Machine, fn *Fn, a []V) V { return put(m, a[0], f(m, get(m, a[1]), get(m, a[2]))) })
	}
	ub("Add", func(m *Machine, x, y *Term) *Term { return m.tt.Add(x, y) })
	ub("Sub", func(m *Machine, x, y *Term) *Term { return m.tt.BSub(x, y) })
	ub("Mul", func(m *Machine, x, y *Term) *Term { return m.tt.Mul(x, y) })
	zdiv := func(m *Machine, y, q *Term) *Term {
		z := m.tt.BVu(256, 0)
		return m.tt.Ite(m.tt.Eq(y, z), z, q)
	}
	ub("Div", func(m *Machine, x, y *Term) *Term { return zdiv(m, y, m.tt.UDiv(x, y)) })
	ub("Mod", func(m *Machine, x, y *Term) *Term { return zdiv(m, y, m.tt.URem(x, y)) })
	ub("SDiv", func(m *Machine, x, y *Term) *Term { return zdiv(m, y, m.tt.SDiv(x, y)) })
	ub("SMod", func(m *Machine, x, y *Term) *Term { return zdiv(m, y, m.tt.SRem(x, y)) })
	ub("And", func(m *Machine, x, y *Term) *Term { return m.tt.BAnd(x, y) })
	ub("Or", func(m *Machine, x, y *Term) *Term { return m.tt.BOr(x, y) })
	ub("Xor", func(m *Machine, x, y *Term) *Term { return m.tt.BXor(x, y) })
	def(U+"Not", func(m *Machine, fn *Fn, a []V) V { return put(m, a[0], m.tt.BNot(get(m, a[1]))) })
	def(U+"Set", func(m *Machine, fn *Fn, a []V) V { return put(m, a[0], get(m, a[1])) })
	def(U+"Clone", func(m *Machine, fn *Fn, a []V) V { return put(m, ptrV(m.newAgg(4)), get(m, a[0])) })
	up := func(name string, f func(m *Machine, x, y *Term) *Term) {
		defp(U+name, func(m *Machine, fn *Fn, a []V) V { return boolV(f(m, get(m, a[0]), get(m, a[1]))) })
	}
	up("Lt", func(m *Machine, x, y *Term) *Term { return m.tt.Ult(x, y) })
	up("Gt", func(m *Machine, x, y *Term) *Term { return m.tt.Ult(y, x) })
	up("Slt", func(m *Machine, x, y *Term) *Term { return m.tt.Slt(x, y) })
	up("Sgt", func(m *Machine, x, y *Term) *Term { return m.tt.Slt(y, x) })
	up("Eq", func(m *Machine, x, y *Term) *Term { return m.tt.Eq(x, y) })
	defp(U+"IsZero", func(m *Machine, fn *Fn, a []V) V { return boolV(m.tt.Eq(get(m, a[0]), m.tt.BVu(256, 0))) })
	defp(U+"Sign", func(m *Machine, fn *Fn, a []V) V {
		x := get(m, a[0])
		z := m.tt.BVu(256, 0)
		return i64.mkV(m.tt.Ite(m.tt.Eq(x, z), m.tt.BVu(64, 0), m.tt.Ite(m.tt.Slt(x, z), m.tt.BVu(64, ^uint64(0)), m.tt.BVu(64, 1))))
	})
	defp(U+"Cmp", func(m *Machine, fn *Fn, a []V) V {
		x, y := get(m, a[0]), get(m, a[1])
		return i64.mkV(m.tt.Ite(m.tt.Ult(x, y), m.tt.BVu(64, ^uint64(0)), m.tt.Ite(m.tt.Eq(x, y), m.tt.BVu(64, 0), m.tt.BVu(64, 1))))
	})
	defp(U+"IsUint64", func(m *Machine, fn *Fn, a []V) V {
		return boolV(m.tt.Eq(m.tt.Extract(get(m, a[0]), 255, 64), m.tt.BVu(192, 0)))
	})
	def(U+"AddOverflow", func(m *Machine, fn *Fn, a []V) V {
		x, y := m.tt.Zext(get(m, a[1]), 257), m.tt.Zext(get(m, a[2]), 257)
		s := m.tt.Add(x, y)
		put(m, a[0], m.tt.Extract(s, 255, 0))
		return tupV(a[0], boolV(m.tt.Eq(m.tt.Extract(s, 256, 256), m.tt.BVu(1, 1))))
	})
	def(U+"SubOverflow", func(m *Machine, fn *Fn, a []V) V {
		x, y := get(m, a[1]), get(m, a[2])
		put(m, a[0], m.tt.BSub(x, y))
		return tupV(a[0], boolV(m.tt.Ult(x, y)))
	})
	defp(U+"Bytes32", func(m *Machine, fn *Fn, a []V) V { return m.arrV(m.termBytes(get(m, a[0]))) })
	defp(U+"Bytes20", func(m *Machine, fn *Fn, a []V) V { return m.arrV(m.termBytes(m.tt.Extract(get(m, a[0]), 159, 0))) })
	def(U+"SetBytes32", func(m *Machine, fn *Fn, a []V) V { return put(m, a[0], m.bytesTerm(m.sliceV(a[1])[:32])) })
	def(U+"SetBytes20", func(m *Machine, fn *Fn, a []V) V {
		return put(m, a[0], m.tt.Zext(m.bytesTerm(m.sliceV(a[1])[:20]), 256))
	})
	def(U+"SetBytes", func(m *Machine, fn *Fn, a []V) V {
		b := m.sliceV(a[1])
		if len(b) > 32 {
			b = b[len(b)-32:]
		}
		if len(b) == 0 {
			return put(m, a[0], m.tt.BVu(256, 0))
		}
		return put(m, a[0], m.tt.Zext(m.bytesTerm(b), 256))
	})
	def("github.com/holiman/uint256.NewInt", func(m *Machine, fn *Fn, a []V) V {
		return put(m, ptrV(m.newAgg(4)), m.tt.Zext(m.term(a[0], 64), 256))
	})
	str256 := func(m *Machine, fn *Fn, a []V) V {
		t := get(m, a[0])
		if t.isC() {
			if strings.HasSuffix(fn.name, "Hex") {
				return sV("0x" + t.cv().Text(16))
			}
			return sV(t.cv().String())
		}
		return V{p: &OpaqueStr{desc: "uint256?"}}
	}
	def(U+"String", str256)
	def(U+"Dec", str256)
	def(U+"Hex", str256)
}

// sIntOf: signed bit-vector value as Int
func (m *Machine) sIntOf(v V, w int32) *Term {
	t := m.term(v, w)
	if t.isC() {
		return m.tt.Inti(toS(t.u, w))
	}
	n := m.tt.BV2Nat(t)
	if m.tt.nonneg(t) {
		return n
	}
	return m.tt.Ite(m.tt.Slt(t, m.tt.BVu(w, 0)), m.tt.Sub(n, m.tt.Intb(pow2(int(w)))), n)
}

// ---- decimal strings of symbolic integers ----
// A symbolic decimal string is a SymStr whose length is decided by forking and whose digits are terms;
// provenance is remembered so that parsing gives back the number.

type decProv struct {
	b []V
	v *BigV
}

func (m *Machine) decStr(b *BigV) V {
	tt := m.tt
	t := b.t
	neg := false
	lo, hi := t.bounds()
	if lo == nil || lo.Sign() < 0 {
		if m.decide(tt.Lt(t, tt.Inti(0))) {
			neg = true
			t = tt.INeg(t)
			lo, hi = t.bounds()
		}
	}
	key := "decs"
	tab, _ := m.sideTabs[key].([]decProv)
	if m.x.cfg.DecOpaque {
		return V{p: &OpaqueStr{desc: "?", parts: []any{b}}}
	}
	n := 1
	p := big.NewInt(10)
	for {
		if hi != nil && hi.Cmp(p) < 0 {
			break
		}
		if n > 90 {
			m.unsupported("decimal string too long")
		}
		if m.decide(tt.Lt(t, tt.Intb(p))) {
			break
		}
		n++
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	// digits: uninterpreted bytes tied to the value through provenance and a digit-range constraint
	digits := make([]V, n)
	sum := tt.Inti(0)
	for i := 0; i < n; i++ {
		d := tt.IMod(tt.IDiv(t, tt.Intb(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n-1-i)), nil))), tt.Inti(10))
		digits[i] = ik{8, false}.mkV(tt.Add(tt.Int2BV(d, 8), tt.BVu(8, '0')))
	}
	_ = sum
	out := digits
	if neg {
		out = append([]V{{u: '-'}}, digits...)
	}
	m.sideTabs[key] = append(tab, decProv{out, b})
	return mkStr(out)
}

// decOf recovers the number behind a decimal string produced by decStr
func (m *Machine) decOf(v V) (*BigV, bool) {
	if o, ok := v.p.(*OpaqueStr); ok && len(o.parts) == 1 {
		if b, ok := o.parts[0].(*BigV); ok {
			return b, true
		}
	}
	s, ok := v.p.(*SymStr)
	if !ok {
		return nil, false
	}
	tab, _ := m.sideTabs["decs"].([]decProv)
	for _, e := range tab {
		if len(e.b) != len(s.b) {
			continue
		}
		same := true
		for i := range e.b {
			if e.b[i] != s.b[i] {
				same = false
				break
			}
		}
		if same {
			return e.v, true
		}
	}
	return nil, false
}

// The text of coins with symbolic amounts is opaque: it may be carried along (events, error
// messages), while looking at it ends the path as unsupported.
func init() {
	def("(github.com/cosmos/cosmos-sdk/types.Coins).String", func(m *Machine, fn *Fn, a []V) V {
		s, _ := a[0].p.(*Slice)
		out := sV("")
		for i := 0; s != nil && i < s.len; i++ {
			c := s.a.e[s.off+i].p.(*Agg)
			amt := c.e[1].p.(*Agg).e[0]
			txt := sV("<nil>")
			if amt.p != nil {
				b := m.bigOf(amt)
				if b.c == nil {
					return V{p: &OpaqueStr{desc: "coins"}}
				}
				txt = sV(b.c.String())
			}
			if i > 0 {
				out = m.concatStr(out, sV(","))
			}
			out = m.concatStr(out, m.concatStr(txt, c.e[0]))
		}
		return out
	})
}
