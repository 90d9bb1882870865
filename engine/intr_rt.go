package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

const rtPkg = "github.com/initia-labs/minievm/internal/verifrt"

func (m *Machine) inName(v V) string {
	s := m.concStr(v)
	n := m.inNames[s]
	m.inNames[s] = n + 1
	if n > 0 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (m *Machine) rtGuard() {
	if m.once > 0 {
		m.unsupported("harness input inside rt.Once")
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
}

type onceRes struct {
	v V
	h []onceEnt
}

func init() {
	P := rtPkg + "."
	// Once runs a function of no symbolic input one time per worker; what it
	// allocates is restored at the end of each path.
	def(P+"Once", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		key := "once:" + m.concStr(a[0])
		r, ok := m.perm[key].(*onceRes)
		if !ok {
			st := m.steps
			m.inInit++
			m.once++
			m.onceHash = nil
			v := m.callV(a[1], nil)
			m.once--
			m.inInit--
			m.steps = st
			seen := map[string]bool{}
			r = &onceRes{v: v}
			for _, e := range m.onceHash {
				k := e.name + string(e.out)
				if !seen[k] {
					seen[k] = true
					r.h = append(r.h, e)
				}
			}
			m.onceHash = nil
			m.perm[key] = r
		}
		for _, e := range r.h {
			m.noteHash(e.name, e.data, m.tt.BVb(int32(8*len(e.out)), new(big.Int).SetBytes(e.out)), e.inj)
		}
		return r.v
	})
	bv := func(name string, k ik) {
		def(P+name, func(m *Machine, fn *Fn, a []V) V {
			m.rtGuard()
			n := m.inName(a[0])
			if m.conc != nil {
				v, _ := new(big.Int).SetString(m.conc[n], 10)
				if v == nil {
					v = bigZero
				}
				return k.mkV(m.tt.BVb(k.w, v))
			}
			t := m.tt.Var(n, KBV, k.w)
			m.inputs = append(m.inputs, input{name: n, kind: "bv", t: t})
			return V{p: t}
		})
	}
	bv("U8", ik{8, false})
	bv("U16", ik{16, false})
	bv("U32", ik{32, false})
	bv("U64", ik{64, false})
	bv("I64", ik{64, true})
	def(P+"Bool", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		n := m.inName(a[0])
		if m.conc != nil {
			return bV(m.conc[n] != "0" && m.conc[n] != "")
		}
		t := m.tt.Var(n, KBool, 0)
		m.inputs = append(m.inputs, input{name: n, kind: "bool", t: t})
		return V{p: t}
	})
	def(P+"Range", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		n := m.inName(a[0])
		lo, hi := int64(m.concretize(a[1], ik{64, true})), int64(m.concretize(a[2], ik{64, true}))
		if lo == hi {
			m.inputs = append(m.inputs, input{name: n, kind: "bv", t: m.tt.BVu(64, uint64(lo))})
			return V{u: uint64(lo)}
		}
		if m.conc != nil {
			v, _ := strconv.ParseUint(m.conc[n], 10, 64)
			return V{u: v}
		}
		if lo >= 0 { // use the narrowest vector so that bounds are known
			w := int32(big.NewInt(hi).BitLen())
			t := m.tt.Var(n, KBV, w)
			z := m.tt.Zext(t, 64)
			m.inputs = append(m.inputs, input{name: n, kind: "bv", t: z})
			m.assume(m.tt.And(m.tt.Ule(m.tt.BVu(w, uint64(lo)), t), m.tt.Ule(t, m.tt.BVu(w, uint64(hi)))))
			return V{p: z}
		}
		t := m.tt.Var(n, KBV, 64)
		m.inputs = append(m.inputs, input{name: n, kind: "bv", t: t})
		m.assume(m.tt.And(m.tt.Sle(m.tt.BVu(64, uint64(lo)), t), m.tt.Sle(t, m.tt.BVu(64, uint64(hi)))))
		return V{p: t}
	})
	def(P+"Choice", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		n := m.inName(a[0])
		if m.conc != nil {
			v, _ := strconv.Atoi(m.conc[n])
			return iV(v)
		}
		c := m.choose(int(m.concretize(a[1], ik{64, true})))
		m.inputs = append(m.inputs, input{name: n, kind: "choice", t: m.tt.BVu(64, uint64(c))})
		return iV(c)
	})
	def(P+"Bytes", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		n := m.inName(a[0])
		l := int(m.concretize(a[1], ik{64, true}))
		if m.conc != nil {
			s := strings.TrimPrefix(m.conc[n], "x")
			e := make([]V, l)
			for i := 0; i < l && 2*i+1 < len(s); i++ {
				x, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
				e[i].u = x
			}
			return m.mkSlice(e)
		}
		if l == 0 {
			m.inputs = append(m.inputs, input{name: n, kind: "bytes"})
			return m.mkSlice(nil)
		}
		t := m.tt.Var(n, KBV, int32(8*l))
		e := m.termBytes(t)
		m.inputs = append(m.inputs, input{name: n, kind: "bytes", ts: append([]V{}, e...)})
		return m.mkSlice(e)
	})
	bigI := func(signed bool) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			m.rtGuard()
			n := m.inName(a[0])
			bits := int(m.concretize(a[1], ik{64, true}))
			if m.conc != nil {
				v, ok := new(big.Int).SetString(m.conc[n], 10)
				if !ok {
					v = bigZero
				}
				return m.newBig(&BigV{c: v})
			}
			hi := new(big.Int).Sub(pow2(bits), bigOne)
			lo := big.NewInt(0)
			if signed {
				lo = new(big.Int).Neg(hi)
			}
			t := m.tt.IntVar(n, lo, hi)
			m.inputs = append(m.inputs, input{name: n, kind: "big", t: t})
			m.addPC(m.tt.RawLe(m.tt.Intb(lo), t))
			m.addPC(m.tt.RawLe(t, m.tt.Intb(hi)))
			return m.newBig(&BigV{t: t})
		}
	}
	def(P+"Big", bigI(false))
	def(P+"BigSigned", bigI(true))
	def(P+"Assume", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		m.assume(m.bterm(a[0]))
		return V{}
	})
	def(P+"Assert", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		m.assertT(m.bterm(a[0]), m.concStr(a[1]))
		return V{}
	})
	def(P+"Reach", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		m.x.noteReach(m.concStr(a[0]))
		return V{}
	})
	def(P+"Observe", func(m *Machine, fn *Fn, a []V) V {
		m.rtGuard()
		m.obsV = append(m.obsV, obsEnt{m.concStr(a[0]), append([]V{}, m.sliceV(a[1])...)})
		return V{}
	})
	def(P+"Symbolic", func(m *Machine, fn *Fn, a []V) V { return bV(true) })
	def(P+"Bound", func(m *Machine, fn *Fn, a []V) V {
		if m.x.cfg.Thorough {
			return a[2]
		}
		return a[1]
	})
}

type obsEnt struct {
	label string
	vs    []V
}

// renderObs evaluates the observations under a model; ok=false when something is not renderable
func (m *Machine) renderObs(md *Model) ([]string, bool) {
	var out []string
	ev := func(v V, w int32) *big.Int {
		if t, ok := v.p.(*Term); ok {
			return md.Eval(t)
		}
		return new(big.Int).SetUint64(v.u)
	}
	bs := func(b []V) []byte {
		r := make([]byte, len(b))
		for i, x := range b {
			r[i] = byte(ev(x, 8).Uint64())
		}
		return r
	}
	for _, o := range m.obsV {
		var sb strings.Builder
		sb.WriteString(o.label + "=")
		for _, v := range o.vs {
			if v.p == nil {
				sb.WriteString("nil ")
				continue
			}
			x := v.p.(*Iface)
			t := x.rt.t.Underlying()
			switch {
			case x.rt.named == "[]byte" || x.rt.named == "[]uint8":
				fmt.Fprintf(&sb, "x%x ", bs(m.sliceV(x.v)))
			case x.rt.named == "string":
				if isOpaque(x.v) {
					return nil, false
				}
				sb.WriteString(strconv.Quote(string(bs(m.strBytes(x.v)))) + " ")
			case x.rt.named == "*math/big.Int":
				if x.v.p == nil {
					sb.WriteString("<nil> ")
					break
				}
				b := m.bigOf(x.v)
				if b.c != nil {
					sb.WriteString(b.c.String() + " ")
				} else {
					sb.WriteString(md.Eval(b.t).String() + " ")
				}
			case m.pr.methodByName(x.rt, "Error") != nil:
				sb.WriteString("error ")
			case isBool(t):
				fmt.Fprintf(&sb, "%v ", ev(x.v, 0).Sign() != 0)
			default:
				k, ok := intKind(t)
				if !ok {
					return nil, false
				}
				u := ev(x.v, k.w)
				if k.s {
					fmt.Fprintf(&sb, "%d ", int64(k.norm(u.Uint64())))
				} else {
					fmt.Fprintf(&sb, "%s ", u.String())
				}
			}
		}
		out = append(out, sb.String())
	}
	return out, true
}
