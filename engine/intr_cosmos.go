package main

import "go/types"

// deepClone copies the object graph below v (static type t).
func (m *Machine) deepClone(t types.Type, v V, seen map[*Agg]*Agg) V {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, ok := v.p.(*Agg)
		if !ok || v.u == AGG {
			return v
		}
		if n, ok := seen[a]; ok {
			return V{u: v.u, p: n}
		}
		n := m.newAgg(len(a.e))
		seen[a] = n
		if v.u == WHOLE {
			c := m.deepCloneAgg(u.Elem(), a, seen)
			copy(n.e, c.e)
		} else {
			copy(n.e, a.e)
			if int(v.u) < len(a.e) {
				n.e[v.u] = m.deepClone(u.Elem(), a.e[v.u], seen)
			}
		}
		return V{u: v.u, p: n}
	case *types.Slice:
		s, ok := v.p.(*Slice)
		if !ok {
			return v
		}
		e := make([]V, s.len)
		for i := range e {
			e[i] = m.deepClone(u.Elem(), s.a.e[s.off+i], seen)
		}
		return m.mkSlice(e)
	case *types.Struct, *types.Array:
		a, ok := v.p.(*Agg)
		if !ok {
			return v
		}
		return aggV(m.deepCloneAgg(t, a, seen))
	case *types.Interface:
		if x, ok := v.p.(*Iface); ok {
			return V{p: &Iface{x.rt, m.deepClone(x.rt.t, x.v, seen)}}
		}
	}
	return v
}

func (m *Machine) deepCloneAgg(t types.Type, a *Agg, seen map[*Agg]*Agg) *Agg {
	n := m.newAgg(len(a.e))
	copy(n.e, a.e)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields() && i < len(n.e); i++ {
			n.e[i] = m.deepClone(u.Field(i).Type(), a.e[i], seen)
		}
	case *types.Array:
		for i := range n.e {
			n.e[i] = m.deepClone(u.Elem(), a.e[i], seen)
		}
	}
	return n
}

func init() {
	def("context.WithValue", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			m.goPanicStr("cannot create context from nil parent")
		}
		if a[1].p == nil {
			m.goPanicStr("nil key")
		}
		t := fn.ssa.Pkg.Type("valueCtx").Object().Type()
		g := m.newAgg(3)
		g.e[0], g.e[1], g.e[2] = a[0], a[1], a[2]
		return V{p: &Iface{m.canon(types.NewPointer(t)), ptrV(g)}}
	})
	def("github.com/cosmos/gogoproto/proto.Clone", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		return m.deepClone(fn.ssa.Signature.Params().At(0).Type(), a[0], map[*Agg]*Agg{})
	})
}

// sha3 sponge: the absorbed bytes are kept in slot 0 of the state struct.
type shaBuf struct{ b []V }

func init() {
	const sp = "(*golang.org/x/crypto/sha3.state)."
	stT := func(fn *Fn) types.Type { return fn.ssa.Signature.Recv().Type().(*types.Pointer).Elem() }
	get := func(m *Machine, g *Agg) *shaBuf {
		if b, ok := g.e[0].p.(*shaBuf); ok {
			return b
		}
		return &shaBuf{}
	}
	check := func(m *Machine, fn *Fn, g *Agg) {
		if o, d := g.e[m.fieldIdx(stT(fn), "outputLen")], g.e[m.fieldIdx(stT(fn), "dsbyte")]; o.u != 32 || d.u != 1 {
			m.unsupported("sha3 variant")
		}
	}
	def(sp+"Reset", func(m *Machine, fn *Fn, a []V) V {
		m.write(m.agg(a[0]), 0, V{p: &shaBuf{}})
		return V{}
	})
	def(sp+"Write", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		check(m, fn, g)
		o := get(m, g)
		n := m.sliceV(a[1])
		m.write(g, 0, V{p: &shaBuf{append(append([]V{}, o.b...), n...)}})
		return tupV(iV(len(n)), V{})
	})
	def(sp+"Sum", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		check(m, fn, g)
		return m.mkSlice(append(append([]V{}, m.sliceV(a[1])...), m.keccak(get(m, g).b)...))
	})
	def(sp+"Read", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		check(m, fn, g)
		s, ok := a[1].p.(*Slice)
		if !ok || s.len > 32 {
			m.unsupported("sha3 read of more than 32 bytes")
		}
		h := m.keccak(get(m, g).b)
		for i := 0; i < s.len; i++ {
			m.write(s.a, s.off+i, h[i])
		}
		return tupV(iV(s.len), V{})
	})
}

func init() {
	const gm = "github.com/ethereum/go-ethereum/common/math."
	def(gm+"PaddedBigBytes", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		n := int(m.concretize(a[1], ik{64, true}))
		t := m.tt.IAbs(m.bt(x))
		if m.decide(m.tt.Le(m.tt.Intb(pow2(8*n)), t)) {
			n = m.byteLen(t)
		}
		if n == 0 {
			return m.mkSlice(nil)
		}
		return m.mkSlice(m.termBytes(m.tt.Int2BV(t, int32(8*n))))
	})
	def(gm+"ReadBits", func(m *Machine, fn *Fn, a []V) V {
		x := m.bigOf(a[0])
		s, ok := a[1].p.(*Slice)
		if !ok || s.len == 0 {
			return V{}
		}
		for i, b := range m.termBytes(m.tt.Int2BV(m.tt.IAbs(m.bt(x)), int32(8*s.len))) {
			m.write(s.a, s.off+i, b)
		}
		return V{}
	})
}

func init() {
	def("cosmossdk.io/math.bigIntOverflows", func(m *Machine, fn *Fn, a []V) V {
		return boolV(m.tt.Le(m.tt.Intb(pow2(256)), m.tt.IAbs(m.bt(m.bigOf(a[0])))))
	})
}
