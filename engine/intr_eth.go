package main

import (
	"go/types"
	"math/big"
)

// Ethereum transaction hashing and signatures.
//
// The hash of an encoded transaction stands for the encoded values themselves
// (rlp is injective and its hash free of collisions): two such hashes are the
// same for a signature if and only if the values are.
// A signature is ideal: it recovers the key it was made with for the hash it
// was made for (rt.Signed), and nothing else recovers to a key.

const ethT = "github.com/ethereum/go-ethereum/core/types."

// ethPart is a piece of an encoded value: bytes, or a non-negative integer.
type ethPart struct {
	b []V
	n *Term
}

func (m *Machine) canonParts(t types.Type, v V, out []ethPart) []ethPart {
	raw := func(e ...V) {
		if k := len(out) - 1; k >= 0 && out[k].n == nil {
			out[k].b = append(out[k].b[:len(out[k].b):len(out[k].b)], e...)
			return
		}
		out = append(out, ethPart{b: append([]V{}, e...)})
	}
	num := func(n, w int) {
		for i := w - 1; i >= 0; i-- {
			raw(V{u: uint64(n>>(8*i)) & 255})
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.p == nil {
			num(0xf0, 1)
			return out
		}
		x := v.p.(*Iface)
		return m.canonParts(x.rt.t, x.v, out)
	case *types.Pointer:
		if types.TypeString(u.Elem(), nil) == "math/big.Int" {
			n := m.tt.Inti(0)
			if v.p != nil {
				n = m.bt(m.bigOf(v))
			}
			if lo, _ := n.bounds(); lo == nil || lo.Sign() < 0 {
				if m.decide(m.tt.Lt(n, m.tt.Inti(0))) {
					m.unsupported("rlp of a negative integer")
				}
			}
			return append(out, ethPart{n: n})
		}
		if v.p == nil {
			num(0xf1, 1)
			return out
		}
		return m.canonParts(u.Elem(), m.load(v), out)
	case *types.Basic:
		k, ok := intKindB(u)
		if !ok {
			break
		}
		num(0xc0+int(k.w)/8, 1)
		raw(m.termBytes(m.term(v, int32(k.w)))...)
		return out
	case *types.Slice:
		e := m.sliceV(v)
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			num(0xb1, 1)
			num(len(e), 4)
			raw(e...)
			return out
		}
		num(0xb2, 1)
		num(len(e), 4)
		for _, x := range e {
			out = m.canonParts(u.Elem(), x, out)
		}
		return out
	case *types.Array:
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			num(0xb3, 1)
			num(int(u.Len()), 4)
			raw(m.arrBytes(v)...)
			return out
		}
	case *types.Struct:
		num(0xb4, 1)
		a := m.agg(v)
		for i := 0; i < u.NumFields(); i++ {
			out = m.canonParts(u.Field(i).Type(), a.e[i], out)
		}
		return out
	}
	m.unsupported("rlp of %s", t)
	return nil
}

type ethHash struct {
	parts []ethPart
	out   []V
}

func (m *Machine) samePart(a, b []ethPart) *Term {
	if len(a) != len(b) {
		return m.tt.False
	}
	r := m.tt.True
	for i := range a {
		switch {
		case a[i].n != nil && b[i].n != nil:
			r = m.tt.And(r, m.tt.Eq(a[i].n, b[i].n))
		case a[i].n == nil && b[i].n == nil:
			r = m.tt.And(r, m.eqBytes(a[i].b, b[i].b))
		default:
			return m.tt.False
		}
	}
	return r
}

// ethHashOf is a hash of the parts that stands for them in recoverSig.
func (m *Machine) ethHashOf(parts []ethPart) V {
	tab, _ := m.sideTabs["ethhash"].([]ethHash)
	for _, e := range tab {
		if m.samePart(e.parts, parts) == m.tt.True {
			return m.arrV(append([]V{}, e.out...))
		}
	}
	out := m.termBytes(m.tt.UF("ethhash", 256, m.tt.BVu(32, uint64(len(tab)))))
	m.sideTabs["ethhash"] = append(tab, ethHash{parts, append([]V{}, out...)})
	return m.arrV(out)
}

func (m *Machine) ethParts(hash []V) []ethPart {
	tab, _ := m.sideTabs["ethhash"].([]ethHash)
	for _, e := range tab {
		if m.eqBytes(e.out, hash) == m.tt.True {
			return e.parts
		}
	}
	m.unsupported("signature of an unknown hash")
	return nil
}

type sigEnt struct {
	hash     []ethPart
	sig, pub []V
}

func (m *Machine) recoverSig(hash, sig []V) []V {
	tab, _ := m.sideTabs["sigs"].([]sigEnt)
	h := m.ethParts(hash)
	for _, e := range tab {
		if m.decide(m.tt.And(m.eqBytes(e.sig, sig), m.samePart(e.hash, h))) {
			return e.pub
		}
	}
	return nil
}

func init() {
	iface := types.NewInterfaceType(nil, nil)
	def(ethT+"rlpHash", func(m *Machine, fn *Fn, a []V) V {
		return m.ethHashOf(m.canonParts(iface, a[0], []ethPart{{b: []V{{u: 0}}}}))
	})
	def(ethT+"prefixedRlpHash", func(m *Machine, fn *Fn, a []V) V {
		return m.ethHashOf(m.canonParts(iface, a[1], []ethPart{{b: []V{{u: 1}, a[0]}}}))
	})
	def(ethT+"recoverPlain", func(m *Machine, fn *Fn, a []V) V {
		bad := func() V { return tupV(m.arrV(make([]V, 20)), m.errVal(sV("invalid transaction v, r, s values"))) }
		var sig []V
		for i, x := range a[1:4] {
			t := m.bt(m.bigOf(x))
			w := 256
			if i == 2 {
				w = 8
				t = m.tt.Sub(t, m.tt.Inti(27))
			}
			if m.decide(m.tt.Lt(t, m.tt.Inti(0))) || !m.decide(m.tt.Lt(t, m.tt.Intb(pow2(w)))) {
				return bad()
			}
			if t.isC() {
				sig = append(sig, m.termBytes(m.tt.BVb(int32(w), new(big.Int).Set(t.cv())))...)
			} else {
				sig = append(sig, m.termBytes(m.tt.Int2BV(t, int32(w)))...)
			}
		}
		pub := m.recoverSig(m.arrBytes(a[0]), sig)
		if pub == nil {
			return bad()
		}
		return tupV(m.arrV(m.keccak(pub[1:])[12:]), V{})
	})
	def("github.com/ethereum/go-ethereum/crypto.Ecrecover", func(m *Machine, fn *Fn, a []V) V {
		pub := m.recoverSig(m.sliceV(a[0]), m.sliceV(a[1]))
		if pub == nil {
			return tupV(V{}, m.errVal(sV("recovery failed")))
		}
		return tupV(m.mkSlice(append([]V{}, pub...)), V{})
	})
	// Signed(hash, sig, pub): sig is the signature of hash under pub
	def(rtPkg+".Signed", func(m *Machine, fn *Fn, a []V) V {
		tab, _ := m.sideTabs["sigs"].([]sigEnt)
		c := func(v V) []V { return append([]V{}, m.sliceV(v)...) }
		m.sideTabs["sigs"] = append(tab, sigEnt{m.ethParts(m.sliceV(a[0])), c(a[1]), c(a[2])})
		return V{}
	})
	// Provide(name, v) stands v in for the result of the named constructor
	def(rtPkg+".Provide", func(m *Machine, fn *Fn, a []V) V {
		m.sideTabs["prov:"+m.concStr(a[0])] = a[1]
		return V{}
	})
	def("github.com/cosmos/cosmos-sdk/x/auth/tx.NewTxConfig", func(m *Machine, fn *Fn, a []V) V {
		v, ok := m.sideTabs["prov:txconfig"].(V)
		if !ok {
			m.unsupported("transaction configuration")
		}
		return v
	})
}

func init() {
	// only used to describe signatures in events
	def("github.com/cosmos/cosmos-sdk/x/auth/ante.signatureDataToBz", func(m *Machine, fn *Fn, a []V) V {
		return tupV(V{}, V{})
	})
}
