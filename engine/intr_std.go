package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var u8T = types.Typ[types.Uint8]

// ---------- fmt ----------

func (m *Machine) sprintf(format V, args []V) V {
	f := m.concStr(format)
	var out V
	lit := func(s string) { out = m.concatStr(out, sV(s)) }
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		if j > 0 {
			lit(f[i : i+j])
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.*", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		spec, verb := f[i:k+1], f[k]
		i = k + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if strings.Contains(spec, "*") {
			m.unsupported("fmt *")
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		out = m.concatStr(out, m.fmt1(spec, verb, a))
	}
	return out
}

func (m *Machine) opq(d string, v V) V { return V{p: &OpaqueStr{desc: "?" + d, parts: []any{v}}} }

func (m *Machine) fmt1(spec string, verb byte, a V) V {
	if a.p == nil {
		return sV(fmt.Sprintf(spec, nil))
	}
	x, ok := a.p.(*Iface)
	if !ok {
		m.bad(a, "interface")
	}
	if verb == 'T' {
		return sV(x.rt.named)
	}
	if verb == 'w' {
		verb = 'v'
		spec = spec[:len(spec)-1] + "v"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if f := m.pr.methodByName(x.rt, "Error"); f != nil && len(f.ssa.Params) == 1 {
			return m.quoteIf(verb, m.safeStr(f, x))
		}
		if f := m.pr.methodByName(x.rt, "String"); f != nil && len(f.ssa.Params) == 1 && isString(f.ssa.Signature.Results().At(0).Type()) {
			return m.quoteIf(verb, m.safeStr(f, x))
		}
	}
	switch u := x.rt.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := x.v.p.(string); ok {
				return sV(fmt.Sprintf(spec, s))
			}
			if x.v.p == nil {
				return sV(fmt.Sprintf(spec, ""))
			}
			if (verb == 's' || verb == 'v') && len(spec) == 2 {
				return x.v
			}
			if verb == 'x' && len(spec) == 2 {
				return mkStr(m.hexChars(m.strBytes(x.v)))
			}
			return m.opq("str", x.v)
		}
		if u.Info()&types.IsBoolean != 0 {
			if x.v.p == nil {
				return sV(fmt.Sprintf(spec, x.v.u != 0))
			}
			return m.opq("bool", x.v)
		}
		if k, ok := intKindB(u); ok {
			if x.v.p != nil {
				if verb == 'd' && len(spec) == 2 || verb == 'v' {
					if !m.x.cfg.DecOpaque && m.x.cfg.FmtInts {
						t := m.tt.BV2Nat(m.term(x.v, k.w))
						if k.s {
							t = m.sIntOf(x.v, k.w)
						}
						return m.decStr(m.mkBig(t))
					}
				}
				return m.opq("int", x.v)
			}
			if k.s {
				return sV(fmt.Sprintf(spec, int64(x.v.u)))
			}
			if k.w == 8 {
				return sV(fmt.Sprintf(spec, uint8(x.v.u)))
			}
			return sV(fmt.Sprintf(spec, x.v.u))
		}
		if u.Info()&types.IsFloat != 0 {
			return sV(fmt.Sprintf(spec, f64(x.v)))
		}
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		if k, ok := intKind(et); ok && k.w == 8 {
			var b []V
			if _, ok := u.(*types.Slice); ok {
				b = m.sliceV(x.v)
			} else {
				b = m.agg(x.v).e
			}
			if c, ok := concBytes(b); ok {
				return sV(fmt.Sprintf(spec, c))
			}
			if verb == 'x' && len(spec) == 2 {
				return mkStr(m.hexChars(b))
			}
			if (verb == 's') && len(spec) == 2 {
				return mkStr(append([]V{}, b...))
			}
			return m.opq("bytes", x.v)
		}
		if s, ok := u.(*types.Slice); ok && isString(s.Elem()) {
			var out V = sV("[")
			for i, e := range m.sliceV(x.v) {
				if i > 0 {
					out = m.concatStr(out, sV(" "))
				}
				out = m.concatStr(out, e)
			}
			return m.concatStr(out, sV("]"))
		}
	}
	return m.opq("<"+x.rt.named+">", a)
}

func (m *Machine) quoteIf(verb byte, v V) V {
	if verb != 'q' {
		return v
	}
	if s, ok := v.p.(string); ok {
		return sV(strconv.Quote(s))
	}
	return m.opq("q", v)
}

func (m *Machine) safeStr(f *Fn, x *Iface) V {
	if _, isPtr := x.rt.t.Underlying().(*types.Pointer); isPtr && x.v.p == nil {
		return sV("<nil>")
	}
	return m.call(f, []V{x.v}, nil, nil)
}

func (m *Machine) sprint(args []V, ln bool) V {
	var out V
	for i, a := range args {
		if i > 0 && ln {
			out = m.concatStr(out, sV(" "))
		}
		out = m.concatStr(out, m.fmt1("%v", 'v', a))
	}
	if ln {
		out = m.concatStr(out, sV("\n"))
	}
	return out
}

// native errors: wrapError implemented through fmt's own types
func (m *Machine) fmtErrorf(a []V) V {
	f := m.concStr(a[0])
	args := m.sliceV(a[1])
	msg := m.sprintf(a[0], args)
	pk := m.pr.prog.ImportedPackage("fmt")
	if strings.Contains(f, "%w") {
		for i := 0; i < len(args); i++ {
			if args[i].p == nil {
				continue
			}
			x, ok := args[i].p.(*Iface)
			if ok && m.pr.methodByName(x.rt, "Error") != nil {
				m.pr.mu.Lock()
				rt := canonRT(types.NewPointer(pk.Type("wrapError").Object().Type()))
				m.pr.mu.Unlock()
				g := m.newAgg(2)
				g.e[0], g.e[1] = msg, args[i]
				return V{p: &Iface{rt, ptrV(g)}}
			}
		}
	}
	return m.errVal(msg)
}

func (m *Machine) structField(v V, i int) V { return m.agg(v).e[i] }

func init() {
	def("fmt.Sprintf", func(m *Machine, fn *Fn, a []V) V { return m.sprintf(a[0], m.sliceV(a[1])) })
	def("fmt.Sprint", func(m *Machine, fn *Fn, a []V) V { return m.sprint(m.sliceV(a[0]), false) })
	def("fmt.Sprintln", func(m *Machine, fn *Fn, a []V) V { return m.sprint(m.sliceV(a[0]), true) })
	def("fmt.Errorf", func(m *Machine, fn *Fn, a []V) V { return m.fmtErrorf(a) })
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		def(n, func(m *Machine, fn *Fn, a []V) V {
			if strings.HasPrefix(fn.name, "fmt.F") {
				// writers used for string building
				x, ok := a[0].p.(*Iface)
				if ok && x.rt.named == "*strings.Builder" {
					var s V
					if fn.name == "fmt.Fprintf" {
						s = m.sprintf(a[1], m.sliceV(a[2]))
					} else {
						s = m.sprint(m.sliceV(a[1]), fn.name == "fmt.Fprintln")
					}
					return intrinsics["(*strings.Builder).WriteString"](m, fn, []V{x.v, s})
				}
			}
			return tupV(iV(0), V{})
		})
	}
	// errors
	def("errors.New", func(m *Machine, fn *Fn, a []V) V { return m.errVal(a[0]) })
	def("github.com/pkg/errors.callers", zeroIntr)
	def("github.com/pkg/errors.New", func(m *Machine, fn *Fn, a []V) V { return m.errVal(a[0]) })
	def("github.com/pkg/errors.Errorf", func(m *Machine, fn *Fn, a []V) V { return m.fmtErrorf(a) })
	def("runtime.Callers", zeroIntr)
	def("runtime.Caller", func(m *Machine, fn *Fn, a []V) V { return tupV(V{}, sV("?"), V{}, V{}) })
	def("runtime.FuncForPC", zeroIntr)
	def("(*runtime.Func).Name", func(m *Machine, fn *Fn, a []V) V { return sV("") })
	def("runtime.SetFinalizer", zeroIntr)
	def("runtime.KeepAlive", zeroIntr)
	def("runtime.GC", zeroIntr)
	def("runtime.NumGoroutine", zeroIntr)
	def("runtime.GOMAXPROCS", func(m *Machine, fn *Fn, a []V) V { return iV(8) })
	def("runtime.NumCPU", func(m *Machine, fn *Fn, a []V) V { return iV(8) })
	def("runtime/debug.Stack", zeroIntr)
	def("runtime/debug.PrintStack", zeroIntr)
	def("errors.Is", func(m *Machine, fn *Fn, a []V) V {
		err, target := a[0], a[1]
		if err.p == nil || target.p == nil {
			return bV(err.p == nil && target.p == nil)
		}
		return bV(m.errIs(err, target, types.Comparable(target.p.(*Iface).rt.t)))
	})
	def("errors.As", func(m *Machine, fn *Fn, a []V) V {
		tgt := a[1].p.(*Iface)
		pt := tgt.rt.t.Underlying().(*types.Pointer).Elem()
		return bV(m.errAs(a[0], tgt.v, pt))
	})
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal"} {
		def(n, func(m *Machine, fn *Fn, a []V) V {
			m.lockOp(fn.name, a[0])
			return V{}
		})
	}
	def("(*sync.Mutex).TryLock", func(m *Machine, fn *Fn, a []V) V { return bV(true) })
	def("(*sync.WaitGroup).Wait", func(m *Machine, fn *Fn, a []V) V {
		for m.runQueued() {
		}
		return V{}
	})
	def("(*sync.WaitGroup).Go", func(m *Machine, fn *Fn, a []V) V {
		m.goStmt(a[1].p.(*Closure), nil)
		return V{}
	})
	def("(*sync.Once).Do", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		if g.e[0].u == AGG { // done is a struct (atomic)
			d := g.e[0].p.(*Agg)
			last := len(d.e) - 1
			if d.e[last].u != 0 {
				return V{}
			}
			m.write(d, last, V{u: 1})
		} else {
			if g.e[0].u != 0 {
				return V{}
			}
			m.write(g, 0, V{u: 1})
		}
		m.callV(a[1], nil)
		return V{}
	})
	def("(*sync.Pool).Get", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		nf := g.e[len(g.e)-1]
		if nf.p == nil {
			return V{}
		}
		return m.callV(nf, nil)
	})
	def("(*sync.Pool).Put", zeroIntr)
	// sync.Map modelled by a MapObj in slot 0.. stored in a per-object side field
	syncMap := func(m *Machine, p V) *MapObj {
		g := m.agg(p)
		i := len(g.e) - 1
		if o, ok := g.e[i].p.(*MapObj); ok {
			return o
		}
		o := m.newMap(types.NewInterfaceType(nil, nil))
		m.write(g, i, V{p: o})
		return o
	}
	def("(*sync.Map).Load", func(m *Machine, fn *Fn, a []V) V {
		e, _, _ := m.mapFind(syncMap(m, a[0]), a[1])
		if e == nil {
			return tupV(V{}, bV(false))
		}
		return tupV(e.v, bV(true))
	})
	def("(*sync.Map).Store", func(m *Machine, fn *Fn, a []V) V { m.mapSet(syncMap(m, a[0]), a[1], a[2]); return V{} })
	def("(*sync.Map).Delete", func(m *Machine, fn *Fn, a []V) V { m.mapDelete(syncMap(m, a[0]), a[1]); return V{} })
	def("(*sync.Map).LoadOrStore", func(m *Machine, fn *Fn, a []V) V {
		o := syncMap(m, a[0])
		e, _, _ := m.mapFind(o, a[1])
		if e != nil {
			return tupV(e.v, bV(true))
		}
		m.mapSet(o, a[1], a[2])
		return tupV(a[2], bV(false))
	})
	def("(*sync.Map).Range", func(m *Machine, fn *Fn, a []V) V {
		for _, e := range append([]*mapEnt{}, syncMap(m, a[0]).ents...) {
			if e.dead {
				continue
			}
			if !m.decide(m.bterm(m.callV(a[1], []V{e.k, e.v}))) {
				break
			}
		}
		return V{}
	})
	// atomics: value is in the last field
	last := func(m *Machine, p V) (*Agg, int) {
		g := m.agg(p)
		if p.u != WHOLE {
			return g, int(p.u)
		}
		i := len(g.e) - 1
		if g.e[i].u == AGG && g.e[i].p != nil {
			if in, ok := g.e[i].p.(*Agg); ok {
				return in, len(in.e) - 1
			}
		}
		return g, i
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Uintptr", "Pointer[T]", "Value"} {
		k := map[string]ik{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}}[ty]
		T := "(*sync/atomic." + ty + ")."
		atomicLoad := func(m *Machine, fn *Fn, a []V) V { g, i := last(m, a[0]); return g.e[i] }
		atomicStore := func(m *Machine, fn *Fn, a []V) V { g, i := last(m, a[0]); m.write(g, i, a[1]); return V{} }
		def(T+"Load", atomicLoad)
		def(T+"Store", atomicStore)
		def(T+"Swap", func(m *Machine, fn *Fn, a []V) V {
			g, i := last(m, a[0])
			o := g.e[i]
			m.write(g, i, a[1])
			return o
		})
		def(T+"Add", func(m *Machine, fn *Fn, a []V) V {
			g, i := last(m, a[0])
			var r V
			if g.e[i].p == nil && a[1].p == nil {
				r = V{u: k.norm(g.e[i].u + a[1].u)}
			} else {
				r = k.mkV(m.tt.Add(m.term(g.e[i], k.w), m.term(a[1], k.w)))
			}
			m.write(g, i, r)
			return r
		})
		def(T+"CompareAndSwap", func(m *Machine, fn *Fn, a []V) V {
			g, i := last(m, a[0])
			o := g.e[i]
			eq := o.u == a[1].u && sameP(o.p, a[1].p)
			if eq {
				m.write(g, i, a[2])
			}
			return bV(eq)
		})
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		k := map[string]ik{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}}[ty]
		def("sync/atomic.Load"+ty, func(m *Machine, fn *Fn, a []V) V { return m.load(a[0]) })
		def("sync/atomic.Store"+ty, func(m *Machine, fn *Fn, a []V) V { m.store(a[0], a[1]); return V{} })
		def("sync/atomic.Add"+ty, func(m *Machine, fn *Fn, a []V) V {
			o := m.load(a[0])
			r := V{u: k.norm(o.u + a[1].u)}
			m.store(a[0], r)
			return r
		})
		def("sync/atomic.CompareAndSwap"+ty, func(m *Machine, fn *Fn, a []V) V {
			o := m.load(a[0])
			eq := o.u == a[1].u && sameP(o.p, a[1].p)
			if eq {
				m.store(a[0], a[2])
			}
			return bV(eq)
		})
	}
	// time
	def("time.Now", func(m *Machine, fn *Fn, a []V) V {
		// a fixed instant (2026-01-01T00:00:00Z, UTC)
		ext := int64(1767225600) + (1969*365+1969/4-1969/100+1969/400)*86400
		g := m.newAgg(3)
		g.e[1] = V{u: uint64(ext)}
		return aggV(g)
	})
	def("time.Since", func(m *Machine, fn *Fn, a []V) V { return V{} })
	def("time.runtimeNano", func(m *Machine, fn *Fn, a []V) V { return V{u: 1} })
	def("time.Sleep", zeroIntr)
	def("time.After", func(m *Machine, fn *Fn, a []V) V { return V{p: &ChanObj{cap: 1}} })
	// sort
	sortSlice := func(m *Machine, fn *Fn, a []V) V {
		x := a[0].p.(*Iface)
		if x.v.p == nil {
			return V{}
		}
		s := x.v.p.(*Slice)
		// insertion sort: deterministic, stable, few comparisons for small inputs. less(i,j) refers to positions.
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				if !m.decide(m.bterm(m.callV(a[1], []V{iV(j), iV(j - 1)}))) {
					break
				}
				p, q := s.a.e[s.off+j], s.a.e[s.off+j-1]
				m.write(s.a, s.off+j, q)
				m.write(s.a, s.off+j-1, p)
			}
		}
		return V{}
	}
	def("sort.Slice", sortSlice)
	def("sort.SliceStable", sortSlice)
	def("sort.Strings", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		s := a[0].p.(*Slice)
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				lt, _ := m.cmpBytes(m.strBytes(s.a.e[s.off+j]), m.strBytes(s.a.e[s.off+j-1]))
				if !m.decide(lt) {
					break
				}
				p, q := s.a.e[s.off+j], s.a.e[s.off+j-1]
				m.write(s.a, s.off+j, q)
				m.write(s.a, s.off+j-1, p)
			}
		}
		return V{}
	})
	def("sort.Sort", func(m *Machine, fn *Fn, a []V) V {
		x := a[0].p.(*Iface)
		ln, less, swap := m.pr.methodByName(x.rt, "Len"), m.pr.methodByName(x.rt, "Less"), m.pr.methodByName(x.rt, "Swap")
		n := int(m.call(ln, []V{x.v}, nil, nil).u)
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				if !m.decide(m.bterm(m.call(less, []V{x.v, iV(j), iV(j - 1)}, nil, nil))) {
					break
				}
				m.call(swap, []V{x.v, iV(j), iV(j - 1)}, nil, nil)
			}
		}
		return V{}
	})
	def("sort.Stable", intrinsics["sort.Sort"])
	// strconv fast paths
	def("strconv.Itoa", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return sV(strconv.Itoa(int(int64(a[0].u))))
		}
		return m.decStr(m.mkBig(m.sIntOf(a[0], 64)))
	})
	def("strconv.FormatUint", func(m *Machine, fn *Fn, a []V) V {
		base := int(m.concretize(a[1], ik{64, true}))
		if a[0].p == nil {
			return sV(strconv.FormatUint(a[0].u, base))
		}
		if base != 10 {
			return m.opq("FormatUint", a[0])
		}
		return m.decStr(m.mkBig(m.tt.BV2Nat(m.term(a[0], 64))))
	})
	def("strconv.FormatInt", func(m *Machine, fn *Fn, a []V) V {
		base := int(m.concretize(a[1], ik{64, true}))
		if a[0].p == nil {
			return sV(strconv.FormatInt(int64(a[0].u), base))
		}
		if base != 10 {
			return m.opq("FormatInt", a[0])
		}
		return m.decStr(m.mkBig(m.sIntOf(a[0], 64)))
	})
	def("strconv.Quote", func(m *Machine, fn *Fn, a []V) V {
		if s, ok := a[0].p.(string); ok {
			return sV(strconv.Quote(s))
		}
		return m.opq("quote", a[0])
	})
	parseU := func(signed bool) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			if d, ok := m.decOf(a[0]); ok && d.t != nil {
				bits := int(m.concretize(a[2], ik{64, true}))
				if bits == 0 {
					bits = 64
				}
				lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(bits), bigOne)
				if signed {
					lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), bigOne)
				}
				in := m.tt.And(m.tt.Le(m.tt.Intb(lo), d.t), m.tt.Le(d.t, m.tt.Intb(hi)))
				if m.decide(in) {
					return tupV(ik{64, signed}.mkV(m.tt.Int2BV(d.t, 64)), V{})
				}
				return tupV(V{}, m.errVal(sV("strconv: value out of range")))
			}
			s := m.concStr(a[0])
			base, bits := int(m.concretize(a[1], ik{64, true})), int(m.concretize(a[2], ik{64, true}))
			if signed {
				v, err := strconv.ParseInt(s, base, bits)
				if err != nil {
					return tupV(V{u: uint64(v)}, m.errVal(sV(err.Error())))
				}
				return tupV(V{u: uint64(v)}, V{})
			}
			v, err := strconv.ParseUint(s, base, bits)
			if err != nil {
				return tupV(V{u: v}, m.errVal(sV(err.Error())))
			}
			return tupV(V{u: v}, V{})
		}
	}
	def("strconv.ParseUint", parseU(false))
	def("strconv.ParseInt", parseU(true))
	// context
	def("context.Background", nil)
	delete(intrinsics, "context.Background")
	// misc
	def("os.Getenv", func(m *Machine, fn *Fn, a []V) V { return sV("") })
	def("os.LookupEnv", func(m *Machine, fn *Fn, a []V) V { return tupV(sV(""), V{}) })
	def("internal/godebug.New", zeroIntr)
	def("(*internal/godebug.Setting).Value", func(m *Machine, fn *Fn, a []V) V { return sV("") })
	def("(*internal/godebug.Setting).IncNonDefault", zeroIntr)
	def("unique.Make", nil)
	delete(intrinsics, "unique.Make")
	def("internal/race.Enable", zeroIntr)
	// reflect: enough for identity tests
	def("reflect.DeepEqual", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil || a[1].p == nil {
			return bV(a[0].p == nil && a[1].p == nil)
		}
		x, y := a[0].p.(*Iface), a[1].p.(*Iface)
		if x.rt != y.rt {
			return bV(false)
		}
		return boolV(m.deepEq(x.rt.t, x.v, y.v, 0))
	})
	// registrations with no observable effect for the checks
	for _, n := range []string{"github.com/cosmos/gogoproto/proto.RegisterFile", "github.com/cosmos/gogoproto/proto.RegisterEnum",
		"github.com/cosmos/gogoproto/proto.GoGoProtoPackageIsVersion3", "github.com/golang/protobuf/proto.RegisterType", "github.com/golang/protobuf/proto.RegisterFile",
		"github.com/cosmos/gogoproto/proto.RegisterMapType", "github.com/cosmos/gogoproto/proto.HybridResolver"} {
		def(n, zeroIntr)
	}
	for _, n := range []string{"(google.golang.org/protobuf/internal/impl.TypeBuilder).Build", "(google.golang.org/protobuf/internal/filetype.Builder).Build"} {
		def(n, zeroIntr)
	}
}

func (m *Machine) lockOp(name string, p V) {}

func (m *Machine) errIs(err, target V, cmp bool) bool {
	for i := 0; i < 64; i++ {
		x := err.p.(*Iface)
		y := target.p.(*Iface)
		if cmp && x.rt == y.rt && m.decide(m.eq(x.rt.t, x.v, y.v)) {
			return true
		}
		if f := m.pr.methodByName(x.rt, "Is"); f != nil {
			if m.decide(m.bterm(m.call(f, []V{x.v, target}, nil, nil))) {
				return true
			}
		}
		f := m.pr.methodByName(x.rt, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []V{x.v}, nil, nil)
		if sl, ok := r.p.(*Slice); ok {
			for _, e := range sl.a.e[sl.off : sl.off+sl.len] {
				if e.p != nil && m.errIs(e, target, cmp) {
					return true
				}
			}
			return false
		}
		if r.p == nil {
			return false
		}
		err = r
	}
	return false
}

func (m *Machine) errAs(err, tgt V, t types.Type) bool {
	it, isI := t.Underlying().(*types.Interface)
	for i := 0; i < 64 && err.p != nil; i++ {
		x := err.p.(*Iface)
		if isI {
			if m.pr.implements(x.rt, it) {
				m.store(tgt, err)
				return true
			}
		} else if types.Identical(x.rt.t, t) {
			m.store(tgt, x.v)
			return true
		}
		if f := m.pr.methodByName(x.rt, "As"); f != nil {
			m.pr.mu.Lock()
			rt := canonRT(types.NewPointer(t))
			m.pr.mu.Unlock()
			if m.decide(m.bterm(m.call(f, []V{x.v, {p: &Iface{rt, tgt}}}, nil, nil))) {
				return true
			}
		}
		f := m.pr.methodByName(x.rt, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []V{x.v}, nil, nil)
		if sl, ok := r.p.(*Slice); ok {
			for _, e := range sl.a.e[sl.off : sl.off+sl.len] {
				if m.errAs(e, tgt, t) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func (m *Machine) deepEq(t types.Type, a, b V, d int) *Term {
	if d > 40 {
		m.unsupported("DeepEqual depth")
	}
	tt := m.tt
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.p == nil) != (b.p == nil) {
			return tt.False
		}
		x, y := m.sliceV(a), m.sliceV(b)
		if len(x) != len(y) {
			return tt.False
		}
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			return m.eqBytes(x, y)
		}
		r := tt.True
		for i := range x {
			r = tt.And(r, m.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		x, y := m.agg(a), m.agg(b)
		if types.TypeString(t, nil) == "math/big.Int" {
			return tt.Eq(m.bt(m.bigOf(ptrV(x))), m.bt(m.bigOf(ptrV(y))))
		}
		r := tt.True
		for i := range x.e {
			r = tt.And(r, m.deepEq(u.Field(i).Type(), x.e[i], y.e[i], d+1))
		}
		return r
	case *types.Array:
		x, y := m.agg(a), m.agg(b)
		r := tt.True
		for i := range x.e {
			r = tt.And(r, m.deepEq(u.Elem(), x.e[i], y.e[i], d+1))
		}
		return r
	case *types.Pointer:
		if ptrEq(a, b) {
			return tt.True
		}
		if a.p == nil || b.p == nil {
			return tt.False
		}
		return m.deepEq(u.Elem(), m.load(a), m.load(b), d+1)
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.rt != y.rt {
			return tt.False
		}
		return m.deepEq(x.rt.t, x.v, y.v, d+1)
	case *types.Map:
		if (a.p == nil) != (b.p == nil) {
			return tt.False
		}
		if a.p == nil {
			return tt.True
		}
		x, y := a.p.(*MapObj), b.p.(*MapObj)
		if x.n != y.n {
			return tt.False
		}
		r := tt.True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f, _, _ := m.mapFind(y, e.k)
			if f == nil {
				return tt.False
			}
			r = tt.And(r, m.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return tt.Bool(a.p == nil && b.p == nil)
	}
	return m.eq(t, a, b)
}

var _ = sort.Strings
