package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(m *Machine, fn *Fn, args []V) V

type Fn struct {
	ssa        *ssa.Function
	name       string
	intr       Intrinsic
	intrPure   bool
	compiled   atomic.Bool
	noted      atomic.Bool
	notedI     atomic.Bool
	noBody     bool
	nregs      int
	blocks     []*Blk
	hasDefer   bool
	recoverBlk int
	zeroRet    func(m *Machine) V
	isInit     bool
	ninstr     int
}

type phiC struct {
	reg   int
	edges []opnd
	kind  byte // 'b' bool, 'i' int, 'o' other
	k     ik
}

type Blk struct {
	index int
	bb    *ssa.BasicBlock
	src   []ssa.Instruction
	ins   []func(fr *frame)
	insPC []int
	term  func(fr *frame) int
	phis  []phiC
	nphi  int
	preds []int
	// for region merging
	cond   opnd
	succs  []int
	region *region
	retOps []opnd
	retK   []phiC
	specOK bool
}

func (b *Blk) predIdx(p int) int {
	for i, x := range b.preds {
		if x == p {
			return i
		}
	}
	return 0
}

type opnd struct {
	k uint8 // 0 const 1 reg 2 free 3 global 4 zero-gen
	i int
	v V
	g *ssa.Global
	z func(m *Machine) V
}

func (fr *frame) get(o opnd) V {
	switch o.k {
	case 0:
		return o.v
	case 1:
		return fr.regs[o.i]
	case 2:
		return fr.free[o.i]
	case 3:
		return fr.m.global(o.g)
	}
	return o.z(fr.m)
}

type Prog struct {
	prog     *ssa.Program
	fset     *token.FileSet
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	impls    map[[2]any]bool
	rerr     *RT
	rtypeRT  *RT
	sizes    types.Sizes
	msets    map[string]*Fn
	skipInit map[string]bool
}

func (p *Prog) runtimeErrRT() *RT {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		pk := p.prog.ImportedPackage("runtime")
		t := pk.Type("errorString").Object().Type()
		p.rerr = canonRT(t)
	}
	return p.rerr
}

func (p *Prog) fnOf(f *ssa.Function) *Fn {
	if r, ok := p.fns[f]; ok {
		return r
	}
	r := &Fn{ssa: f, name: f.String(), recoverBlk: -1}
	p.fns[f] = r
	name := r.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		r.intr = in
		r.intrPure = pureIntr[name]
	} else if in, ok := intrinsics[r.name]; ok {
		r.intr = in
		r.intrPure = pureIntr[r.name]
	} else if in := intrByPattern(name, f); in != nil {
		r.intr = in
	}
	return r
}

func (p *Prog) methodOf(rt *RT, f *types.Func) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := rt.methods[f]; ok {
		return r
	}
	var sf *ssa.Function
	ms := p.prog.MethodSets.MethodSet(rt.t)
	sel := ms.Lookup(f.Pkg(), f.Name())
	if sel != nil {
		sf = p.prog.MethodValue(sel)
	}
	var r *Fn
	if sf != nil {
		r = p.fnOf(sf)
	}
	rt.methods[f] = r
	return r
}

func (p *Prog) methodByName(rt *RT, name string) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	key := fmt.Sprintf("%d.%s", rt.id, name)
	if r, ok := p.msets[key]; ok {
		return r
	}
	ms := p.prog.MethodSets.MethodSet(rt.t)
	var r *Fn
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if sf := p.prog.MethodValue(ms.At(i)); sf != nil {
				r = p.fnOf(sf)
			}
			break
		}
	}
	p.msets[key] = r
	return r
}

func (p *Prog) implements(rt *RT, it *types.Interface) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := [2]any{rt, it}
	if r, ok := p.impls[k]; ok {
		return r
	}
	r := types.Implements(rt.t, it)
	p.impls[k] = r
	return r
}

func (m *Machine) global(g *ssa.Global) V {
	if v, ok := m.globals[g]; ok {
		return v
	}
	m.initPkg(g.Pkg)
	v, ok := m.globals[g]
	if !ok {
		m.unsupported("global %s", g)
	}
	return v
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.initDone[pkg] {
		return
	}
	m.initDone[pkg] = true
	m.pr.mu.Lock()
	pkg.Build()
	var gs []*ssa.Global
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	var fn *Fn
	if f := pkg.Func("init"); f != nil {
		fn = m.pr.fnOf(f)
	}
	zs := make([]func(*Machine) V, len(gs))
	for i, g := range gs {
		zs[i] = zeroFn(g.Type().(*types.Pointer).Elem())
	}
	m.pr.mu.Unlock()
	m.inInit++
	spec, steps := m.spec, m.steps
	m.spec = 0
	for i, g := range gs {
		t := g.Type().(*types.Pointer).Elem()
		m.globals[g] = m.newPtr(t, zs[i](m))
	}
	if fn != nil && !m.pr.skipInit[pkg.Pkg.Path()] {
		nf, d := len(m.frames), m.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					m.initFail("init "+pkg.Pkg.Path(), r)
					m.frames, m.depth = m.frames[:nf], d
				}
			}()
			m.call(fn, nil, nil, nil)
		}()
	}
	m.inInit--
	m.spec, m.steps = spec, steps
}

func (m *Machine) initFail(what string, r any) string {
	msg := ""
	switch p := r.(type) {
	case *goPanic:
		msg = "panic " + p.at
	case pathEnd:
		msg = p.kind + " " + p.msg + " @ " + p.at
	case specAbort:
		msg = "spec"
	default:
		msg = fmt.Sprint(r)
		if debugInit {
			panic(r)
		}
	}
	m.x.noteInitFail(what, msg)
	return msg
}

var debugInit bool

// ---------- compile ----------

type compiler struct {
	p    *Prog
	fn   *Fn
	reg  map[ssa.Value]int
	free map[*ssa.FreeVar]int
}

func (p *Prog) compile(fn *Fn) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fn.compiled.Load() {
		return
	}
	f := fn.ssa
	if f.Blocks == nil && f.Pkg != nil {
		f.Pkg.Build()
	}
	if f.Blocks == nil && f.Origin() != nil && f.Origin().Pkg != nil {
		f.Origin().Pkg.Build()
	}
	if f.Blocks == nil && f.Parent() != nil {
		x := f
		for x.Parent() != nil {
			x = x.Parent()
		}
		if x.Pkg != nil {
			x.Pkg.Build()
		}
	}
	if f.Blocks == nil {
		fn.noBody = true
		fn.compiled.Store(true)
		return
	}
	c := &compiler{p: p, fn: fn, reg: map[ssa.Value]int{}, free: map[*ssa.FreeVar]int{}}
	fn.isInit = f.Synthetic == "package initializer"
	n := 0
	for _, pa := range f.Params {
		c.reg[pa] = n
		n++
	}
	for i, fv := range f.FreeVars {
		c.free[fv] = i
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := ins.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
			fn.ninstr++
		}
	}
	fn.nregs = n
	fn.zeroRet = zeroRet(f.Signature.Results())
	for _, b := range f.Blocks {
		fn.blocks = append(fn.blocks, c.block(b))
	}
	if f.Recover != nil {
		fn.recoverBlk = f.Recover.Index
	}
	buildRegions(fn)
	fn.compiled.Store(true)
}

func zeroRet(t *types.Tuple) func(m *Machine) V {
	switch t.Len() {
	case 0:
		return func(*Machine) V { return V{} }
	case 1:
		return zeroFn(t.At(0).Type())
	}
	return zeroFn(t)
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return c.constOp(x)
	case *ssa.Global:
		return opnd{k: 3, g: x}
	case *ssa.Function:
		return opnd{v: V{p: &Closure{fn: c.p.fnOf(x)}}}
	case *ssa.FreeVar:
		return opnd{k: 2, i: c.free[x]}
	case *ssa.Builtin:
		return opnd{v: V{p: x}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %s in %s", v, c.fn.name))
	}
	return opnd{k: 1, i: i}
}

func constV(x *ssa.Const) (V, func(*Machine) V) {
	t := x.Type()
	if x.Value == nil {
		if isAgg(t) {
			return V{}, zeroFn(t)
		}
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return V{}, zeroFn(t)
		}
		return V{}, nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic("typeparam const " + tp.String())
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			panic("iface const")
		}
		panic("const type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return bV(constant.BoolVal(x.Value)), nil
	case b.Info()&types.IsString != 0:
		s := ""
		if x.Value.Kind() == constant.String {
			s = constant.StringVal(x.Value)
		} else {
			i, _ := constant.Int64Val(x.Value)
			s = string(rune(i))
		}
		return sV(s), nil
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return V{u: math.Float64bits(f)}, nil
	case b.Info()&types.IsInteger != 0:
		k, _ := intKindB(b)
		cv := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return V{u: k.norm(uint64(i))}, nil
		}
		u, _ := constant.Uint64Val(cv)
		return V{u: k.norm(u)}, nil
	}
	return V{p: &Poison{"const " + x.String()}}, nil
}

func (c *compiler) constOp(x *ssa.Const) opnd {
	v, z := constV(x)
	if z != nil {
		return opnd{k: 4, z: z}
	}
	return opnd{v: v}
}

func (c *compiler) block(b *ssa.BasicBlock) *Blk {
	r := &Blk{index: b.Index, bb: b, src: b.Instrs, specOK: true}
	for _, p := range b.Preds {
		r.preds = append(r.preds, p.Index)
	}
	for _, s := range b.Succs {
		r.succs = append(r.succs, s.Index)
	}
	for i, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
			ph := phiC{reg: c.reg[x]}
			ph.setKind(x.Type())
			for _, e := range x.Edges {
				ph.edges = append(ph.edges, c.op(e))
			}
			r.phis = append(r.phis, ph)
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := c.op(x.Cond)
			r.cond = cond
			blk := r
			t, f := b.Succs[0].Index, b.Succs[1].Index
			r.term = func(fr *frame) int {
				v := fr.get(cond)
				if v.p == nil {
					if v.u != 0 {
						return t
					}
					return f
				}
				tm, ok := v.p.(*Term)
				if !ok {
					fr.m.bad(v, "bool")
				}
				if blk.region != nil {
					if n, ok := fr.m.trySpec(fr, blk, tm); ok {
						return n
					}
				}
				if fr.m.decide(tm) {
					return t
				}
				return f
			}
			continue
		case *ssa.Jump:
			t := b.Succs[0].Index
			r.term = func(fr *frame) int { return t }
			continue
		case *ssa.Return:
			r.term = c.ret(x)
			for _, e := range x.Results {
				r.retOps = append(r.retOps, c.op(e))
				var ph phiC
				ph.setKind(e.Type())
				r.retK = append(r.retK, ph)
			}
			continue
		case *ssa.Panic:
			o := c.op(x.X)
			r.specOK = false
			r.term = func(fr *frame) int {
				fr.m.goPanicV(fr.get(o))
				return -1
			}
			continue
		}
		f, spec := c.instr(ins)
		if !spec {
			r.specOK = false
		}
		if f == nil {
			continue
		}
		if c.fn.isInit {
			f = c.protect(f, ins)
		}
		r.ins = append(r.ins, f)
		r.insPC = append(r.insPC, i)
	}
	r.nphi = len(r.phis)
	return r
}

func (p *phiC) setKind(t types.Type) {
	p.kind = 'o'
	if isBool(t) {
		p.kind = 'b'
	} else if k, ok := intKind(t); ok {
		p.kind, p.k = 'i', k
	}
}

func (c *compiler) protect(f func(fr *frame), ins ssa.Instruction) func(fr *frame) {
	reg := -1
	var tup int
	if v, ok := ins.(ssa.Value); ok {
		reg = c.reg[v]
		if t, ok := v.Type().(*types.Tuple); ok {
			tup = t.Len()
		}
	}
	return func(fr *frame) {
		m := fr.m
		nf, d := len(m.frames), m.depth
		defer func() {
			if r := recover(); r != nil {
				msg := m.initFail(ins.String(), r)
				m.frames, m.depth = m.frames[:nf], d
				if reg >= 0 {
					if tup > 0 {
						t := &Tuple{}
						for i := 0; i < tup; i++ {
							t.e = append(t.e, V{p: &Poison{msg}})
						}
						fr.regs[reg] = V{p: t}
					} else {
						fr.regs[reg] = V{p: &Poison{msg}}
					}
				}
			}
		}()
		f(fr)
	}
}

func (c *compiler) ret(x *ssa.Return) func(fr *frame) int {
	switch len(x.Results) {
	case 0:
		return func(fr *frame) int { return -1 }
	case 1:
		o := c.op(x.Results[0])
		return func(fr *frame) int { fr.ret = fr.get(o); return -1 }
	}
	var os []opnd
	for _, e := range x.Results {
		os = append(os, c.op(e))
	}
	return func(fr *frame) int {
		t := &Tuple{make([]V, len(os))}
		for i, o := range os {
			t.e[i] = fr.get(o)
		}
		fr.ret = V{p: t}
		return -1
	}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

// instr compiles one instruction; the flag says whether it may run speculatively
func (c *compiler) instr(ins ssa.Instruction) (func(fr *frame), bool) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		r := c.reg[x]
		t := x.Type().Underlying().(*types.Pointer).Elem()
		z := zeroFn(t)
		agg := isAgg(t)
		return func(fr *frame) {
			if agg {
				fr.regs[r] = V{p: z(fr.m).p, u: WHOLE}
				return
			}
			a := &Agg{e: []V{z(fr.m)}, shared: fr.m.inInit > 0}
			fr.regs[r] = V{p: a}
		}, true
	case *ssa.BinOp:
		return c.binop(x), true
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(x)
	case *ssa.ChangeInterface:
		r, o := c.reg[x], c.op(x.X)
		return func(fr *frame) { fr.regs[r] = fr.get(o) }, true
	case *ssa.ChangeType:
		r, o := c.reg[x], c.op(x.X)
		return func(fr *frame) { fr.regs[r] = fr.get(o) }, true
	case *ssa.Convert:
		return c.convert(x, x.X.Type(), x.Type(), x.X), true
	case *ssa.MultiConvert:
		return c.convert(x, x.X.Type(), x.Type(), x.X), true
	case *ssa.SliceToArrayPointer:
		r, o := c.reg[x], c.op(x.X)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		return func(fr *frame) {
			v := fr.get(o)
			if v.p == nil {
				if n == 0 {
					fr.regs[r] = V{}
					return
				}
				fr.m.goPanicStr("runtime error: cannot convert slice with length 0 to array")
			}
			s := v.p.(*Slice)
			if s.len < n {
				fr.m.goPanicStr(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			}
			// share: only correct for the full-width case, otherwise view
			fr.regs[r] = ptrV(fr.m.view(s, n))
		}, true
	case *ssa.Defer:
		args := c.ops(x.Call.Args)
		callee := c.callee(&x.Call)
		bi, isB := x.Call.Value.(*ssa.Builtin)
		return func(fr *frame) {
			vs := make([]V, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			if isB {
				call := &x.Call
				fr.defers = append(fr.defers, func(f *frame) { f.m.builtin(f, bi, vs, call) })
				return
			}
			cl, vs2 := callee(fr, vs)
			fr.defers = append(fr.defers, func(f *frame) {
				if cl.native != nil {
					cl.native(f.m, f, vs2)
					return
				}
				f.m.call(cl.fn, vs2, cl.free, f)
			})
		}, false
	case *ssa.RunDefers:
		return func(fr *frame) {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				d(fr)
			}
		}, false
	case *ssa.Go:
		args := c.ops(x.Call.Args)
		callee := c.callee(&x.Call)
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			return func(fr *frame) { fr.m.unsupported("go builtin") }, false
		}
		return func(fr *frame) {
			vs := make([]V, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			cl, vs2 := callee(fr, vs)
			fr.m.goStmt(cl, vs2)
		}, false
	case *ssa.Extract:
		r, o, i := c.reg[x], c.op(x.Tuple), x.Index
		return func(fr *frame) {
			t, ok := fr.get(o).p.(*Tuple)
			if !ok {
				v := fr.get(o)
				if _, isP := v.p.(*Poison); isP {
					fr.regs[r] = v
					return
				}
				fr.m.bad(v, "tuple")
			}
			fr.regs[r] = t.e[i]
		}, true
	case *ssa.Field:
		r, o, i := c.reg[x], c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[r] = fr.m.agg(fr.get(o)).e[i] }, true
	case *ssa.FieldAddr:
		r, o, i := c.reg[x], c.op(x.X), x.Field
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		agg := isAgg(st.Field(i).Type())
		return func(fr *frame) {
			v := fr.get(o)
			a, ok := v.p.(*Agg)
			if !ok {
				if v.p == nil {
					fr.m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
				}
				fr.m.bad(v, "struct pointer")
			}
			if v.u != WHOLE || i >= len(a.e) {
				fr.m.unsupported("field address of reinterpreted pointer")
			}
			if agg {
				fr.regs[r] = V{p: a.e[i].p, u: WHOLE}
			} else {
				fr.regs[r] = V{p: a, u: uint64(i)}
			}
		}, true
	case *ssa.Index:
		r, o, io := c.reg[x], c.op(x.X), c.op(x.Index)
		ki, _ := intKind(x.Index.Type())
		if isString(x.X.Type()) {
			return func(fr *frame) { fr.regs[r] = fr.m.strIndex(fr.get(o), fr.get(io), ki) }, true
		}
		ek, isI := intKind(x.Type())
		isB := isBool(x.Type())
		return func(fr *frame) {
			a := fr.m.agg(fr.get(o))
			fr.regs[r] = fr.m.indexRead(a, 0, len(a.e), fr.get(io), ki, ek, isI, isB)
		}, true
	case *ssa.IndexAddr:
		return c.indexAddr(x), true
	case *ssa.Lookup:
		return c.lookup(x), true
	case *ssa.MakeChan:
		r, o := c.reg[x], c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			fr.regs[r] = V{p: &ChanObj{cap: int(fr.m.concretize(fr.get(o), ik{64, true})), et: et}}
		}, false
	case *ssa.MakeClosure:
		r := c.reg[x]
		fn := c.p.fnOf(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *frame) {
			cl := &Closure{fn: fn, free: make([]V, len(bs))}
			for i, b := range bs {
				cl.free[i] = fr.get(b)
			}
			fr.regs[r] = V{p: cl}
		}, true
	case *ssa.MakeInterface:
		r, o := c.reg[x], c.op(x.X)
		rt := canonRT(x.X.Type())
		return func(fr *frame) { fr.regs[r] = V{p: &Iface{rt, fr.get(o)}} }, true
	case *ssa.MakeMap:
		r := c.reg[x]
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[r] = V{p: fr.m.newMap(kt)} }, false
	case *ssa.MakeSlice:
		r, lo, co := c.reg[x], c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFn(et)
		ea := isAgg(et)
		lk, _ := intKind(x.Len.Type())
		ck, _ := intKind(x.Cap.Type())
		return func(fr *frame) {
			m := fr.m
			l, cp := int64(m.concretize(fr.get(lo), lk)), int64(m.concretize(fr.get(co), ck))
			if l < 0 || l > 1<<40 {
				m.goPanicStr("runtime error: makeslice: len out of range")
			}
			if cp < l || cp > 1<<40 {
				m.goPanicStr("runtime error: makeslice: cap out of range")
			}
			if cp > 1<<24 {
				panic(pathEnd{"budget", fmt.Sprintf("makeslice of %d elements", cp), m.where()})
			}
			a := m.newAgg(int(cp))
			if ea {
				for i := range a.e {
					a.e[i] = z(m)
				}
			}
			fr.regs[r] = V{p: &Slice{a, 0, int(l), int(cp)}}
		}, true
	case *ssa.MapUpdate:
		mo, ko, vo := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			mv := fr.get(mo)
			if mv.p == nil {
				fr.m.goPanicStr("assignment to entry in nil map")
			}
			o, ok := mv.p.(*MapObj)
			if !ok {
				fr.m.bad(mv, "map")
			}
			fr.m.mapSet(o, fr.get(ko), fr.get(vo))
		}, false
	case *ssa.Next:
		r, o := c.reg[x], c.op(x.Iter)
		isStr := x.IsString
		return func(fr *frame) { fr.regs[r] = fr.m.next(fr.get(o), isStr) }, false
	case *ssa.Range:
		r, o := c.reg[x], c.op(x.X)
		isStr := isString(x.X.Type())
		return func(fr *frame) { fr.regs[r] = fr.m.rangeIter(fr.get(o), isStr) }, false
	case *ssa.Select:
		return c.selectI(x), false
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.m.send(fr.get(ch), fr.get(v)) }, false
	case *ssa.Slice:
		return c.slice(x), true
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) { fr.m.store(fr.get(a), fr.get(v)) }, false
	case *ssa.TypeAssert:
		return c.typeAssert(x), true
	}
	s := ins.String()
	return func(fr *frame) { fr.m.unsupported("instruction %s", s) }, false
}

// view returns an Agg for the first n elements of s (aliasing only when exact)
func (m *Machine) view(s *Slice, n int) *Agg {
	if s.off == 0 && len(s.a.e) == n {
		return s.a
	}
	a := m.newAgg(n)
	for i := 0; i < n; i++ {
		a.e[i] = m.copyV(s.a.e[s.off+i])
	}
	return a // note: a copy; writes through the array pointer are not seen by the slice
}

// opaqueFloat is a float made from a symbolic integer; it may be passed on, but not looked at
type opaqueFloat struct{}

func f64(v V) float64 {
	if v.p != nil {
		panic(pathEnd{"unsupported", "symbolic float", ""})
	}
	return math.Float64frombits(v.u)
}
func fV(f float64) V  { return V{u: math.Float64bits(f)} }

func (c *compiler) unop(x *ssa.UnOp) (func(fr *frame), bool) {
	r, o := c.reg[x], c.op(x.X)
	switch x.Op {
	case token.MUL:
		return func(fr *frame) {
			p := fr.get(o)
			if a, ok := p.p.(*Agg); ok && p.u != WHOLE {
				v := a.e[p.u]
				if v.u == AGG && v.p != nil {
					v = fr.m.copyV(v)
				}
				fr.regs[r] = v
				return
			}
			fr.regs[r] = fr.m.load(p)
		}, true
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(o)
			if v.p == nil {
				fr.regs[r] = V{u: v.u ^ 1}
				return
			}
			fr.regs[r] = boolV(fr.m.tt.Not(fr.m.bterm(v)))
		}, true
	case token.SUB:
		if isFloat(x.Type()) {
			return func(fr *frame) { fr.regs[r] = fV(-f64(fr.get(o))) }, true
		}
		k, ok := intKind(x.Type())
		if !ok {
			return func(fr *frame) { fr.m.unsupported("neg %s", x.Type()) }, true
		}
		return func(fr *frame) {
			v := fr.get(o)
			if v.p == nil {
				fr.regs[r] = V{u: k.norm(-v.u)}
				return
			}
			fr.regs[r] = k.mkV(fr.m.tt.Neg(fr.m.term(v, k.w)))
		}, true
	case token.XOR:
		k, _ := intKind(x.Type())
		return func(fr *frame) {
			v := fr.get(o)
			if v.p == nil {
				fr.regs[r] = V{u: k.norm(^v.u)}
				return
			}
			fr.regs[r] = k.mkV(fr.m.tt.BNot(fr.m.term(v, k.w)))
		}, true
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		z := zeroFn(et)
		ok := x.CommaOk
		return func(fr *frame) {
			v, b := fr.m.recv(fr.get(o), z)
			if ok {
				fr.regs[r] = tupV(v, bV(b))
			} else {
				fr.regs[r] = v
			}
		}, false
	}
	return func(fr *frame) { fr.m.unsupported("unop %s", x.Op) }, false
}

func (c *compiler) binop(x *ssa.BinOp) func(fr *frame) {
	r, a, b := c.reg[x], c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	op := x.Op
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		// comparison of interface with concrete
		tx, ty := x.X.Type(), x.Y.Type()
		_, ix := tx.Underlying().(*types.Interface)
		_, iy := ty.Underlying().(*types.Interface)
		if k, ok := intKind(t); ok && !ix && !iy {
			return func(fr *frame) {
				p, q := fr.get(a), fr.get(b)
				if p.p == nil && q.p == nil {
					fr.regs[r] = bV((p.u == q.u) != neg)
					return
				}
				e := fr.m.tt.Eq(fr.m.term(p, k.w), fr.m.term(q, k.w))
				if neg {
					e = fr.m.tt.Not(e)
				}
				fr.regs[r] = boolV(e)
			}
		}
		var wrapX, wrapY *RT
		if ix && !iy && !isNilConst(x.Y) {
			wrapY = canonRT(ty)
		}
		if iy && !ix && !isNilConst(x.X) {
			wrapX = canonRT(tx)
			t = ty
		}
		return func(fr *frame) {
			p, q := fr.get(a), fr.get(b)
			if wrapX != nil {
				p = V{p: &Iface{wrapX, p}}
			}
			if wrapY != nil {
				q = V{p: &Iface{wrapY, q}}
			}
			e := fr.m.eq(t, p, q)
			if neg {
				e = fr.m.tt.Not(e)
			}
			fr.regs[r] = boolV(e)
		}
	}
	if k, ok := intKind(t); ok {
		if op == token.SHL || op == token.SHR {
			ky, _ := intKind(x.Y.Type())
			return func(fr *frame) { fr.regs[r] = fr.m.shift(op == token.SHL, k, ky, fr.get(a), fr.get(b)) }
		}
		fast := intFast(op, k)
		return func(fr *frame) {
			p, q := fr.get(a), fr.get(b)
			if p.p == nil && q.p == nil {
				if (op == token.QUO || op == token.REM) && q.u == 0 {
					fr.m.goPanicStr("runtime error: integer divide by zero")
				}
				fr.regs[r] = fast(p.u, q.u)
				return
			}
			fr.regs[r] = fr.m.binSym(op, k, p, q)
		}
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[r] = fr.m.concatStr(fr.get(a), fr.get(b)) }
		}
		return func(fr *frame) {
			p, q := fr.get(a), fr.get(b)
			lt, eq := fr.m.cmpBytes(fr.m.strBytes(p), fr.m.strBytes(q))
			tt := fr.m.tt
			switch op {
			case token.LSS:
				fr.regs[r] = boolV(lt)
			case token.LEQ:
				fr.regs[r] = boolV(tt.Or(lt, eq))
			case token.GTR:
				fr.regs[r] = boolV(tt.Not(tt.Or(lt, eq)))
			case token.GEQ:
				fr.regs[r] = boolV(tt.Not(lt))
			}
		}
	}
	if isFloat(t) {
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			p, q := fr.get(a), fr.get(b)
			if p.p != nil || q.p != nil {
				fr.m.unsupported("symbolic float")
			}
			x, y := f64(p), f64(q)
			rd := func(f float64) V {
				if f32 {
					f = float64(float32(f))
				}
				return fV(f)
			}
			switch op {
			case token.ADD:
				fr.regs[r] = rd(x + y)
			case token.SUB:
				fr.regs[r] = rd(x - y)
			case token.MUL:
				fr.regs[r] = rd(x * y)
			case token.QUO:
				fr.regs[r] = rd(x / y)
			case token.LSS:
				fr.regs[r] = bV(x < y)
			case token.LEQ:
				fr.regs[r] = bV(x <= y)
			case token.GTR:
				fr.regs[r] = bV(x > y)
			case token.GEQ:
				fr.regs[r] = bV(x >= y)
			}
		}
	}
	if isBool(t) {
		return func(fr *frame) {
			p, q := fr.m.bterm(fr.get(a)), fr.m.bterm(fr.get(b))
			switch op {
			case token.AND, token.LAND:
				fr.regs[r] = boolV(fr.m.tt.And(p, q))
			case token.OR, token.LOR:
				fr.regs[r] = boolV(fr.m.tt.Or(p, q))
			}
		}
	}
	return func(fr *frame) { fr.m.unsupported("binop %s on %s", op, t) }
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func intFast(op token.Token, k ik) func(x, y uint64) V {
	switch op {
	case token.ADD:
		return func(x, y uint64) V { return V{u: k.norm(x + y)} }
	case token.SUB:
		return func(x, y uint64) V { return V{u: k.norm(x - y)} }
	case token.MUL:
		return func(x, y uint64) V { return V{u: k.norm(x * y)} }
	case token.QUO:
		if k.s {
			return func(x, y uint64) V {
				if int64(y) == -1 {
					return V{u: k.norm(-x)}
				}
				return V{u: k.norm(uint64(int64(x) / int64(y)))}
			}
		}
		return func(x, y uint64) V { return V{u: x / y} }
	case token.REM:
		if k.s {
			return func(x, y uint64) V {
				if int64(y) == -1 {
					return V{}
				}
				return V{u: k.norm(uint64(int64(x) % int64(y)))}
			}
		}
		return func(x, y uint64) V { return V{u: x % y} }
	case token.AND:
		return func(x, y uint64) V { return V{u: x & y} }
	case token.OR:
		return func(x, y uint64) V { return V{u: x | y} }
	case token.XOR:
		return func(x, y uint64) V { return V{u: k.norm(x ^ y)} }
	case token.AND_NOT:
		return func(x, y uint64) V { return V{u: k.norm(x &^ y)} }
	case token.LSS:
		if k.s {
			return func(x, y uint64) V { return bV(int64(x) < int64(y)) }
		}
		return func(x, y uint64) V { return bV(x < y) }
	case token.LEQ:
		if k.s {
			return func(x, y uint64) V { return bV(int64(x) <= int64(y)) }
		}
		return func(x, y uint64) V { return bV(x <= y) }
	case token.GTR:
		if k.s {
			return func(x, y uint64) V { return bV(int64(x) > int64(y)) }
		}
		return func(x, y uint64) V { return bV(x > y) }
	case token.GEQ:
		if k.s {
			return func(x, y uint64) V { return bV(int64(x) >= int64(y)) }
		}
		return func(x, y uint64) V { return bV(x >= y) }
	}
	return func(x, y uint64) V { panic("op " + op.String()) }
}

func (m *Machine) binSym(op token.Token, k ik, p, q V) V {
	tt := m.tt
	x, y := m.term(p, k.w), m.term(q, k.w)
	switch op {
	case token.ADD:
		return k.mkV(tt.Add(x, y))
	case token.SUB:
		return k.mkV(tt.BSub(x, y))
	case token.MUL:
		return k.mkV(tt.Mul(x, y))
	case token.QUO, token.REM:
		if m.decide(tt.Eq(y, tt.BVu(k.w, 0))) {
			m.goPanicStr("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && k.s:
			return k.mkV(tt.SDiv(x, y))
		case op == token.QUO:
			return k.mkV(tt.UDiv(x, y))
		case k.s:
			return k.mkV(tt.SRem(x, y))
		}
		return k.mkV(tt.URem(x, y))
	case token.AND:
		return k.mkV(tt.BAnd(x, y))
	case token.OR:
		return k.mkV(tt.BOr(x, y))
	case token.XOR:
		return k.mkV(tt.BXor(x, y))
	case token.AND_NOT:
		return k.mkV(tt.BAnd(x, tt.BNot(y)))
	case token.LSS:
		if k.s {
			return boolV(tt.Slt(x, y))
		}
		return boolV(tt.Ult(x, y))
	case token.GTR:
		if k.s {
			return boolV(tt.Slt(y, x))
		}
		return boolV(tt.Ult(y, x))
	case token.LEQ:
		if k.s {
			return boolV(tt.Sle(x, y))
		}
		return boolV(tt.Ule(x, y))
	case token.GEQ:
		if k.s {
			return boolV(tt.Sle(y, x))
		}
		return boolV(tt.Ule(y, x))
	}
	m.unsupported("binsym %s", op)
	return V{}
}

func (m *Machine) shift(left bool, k, ky ik, p, q V) V {
	if ky.s {
		if q.p == nil {
			if int64(q.u) < 0 {
				m.goPanicStr("runtime error: negative shift amount")
			}
		} else if m.decide(m.tt.Slt(m.term(q, ky.w), m.tt.BVu(ky.w, 0))) {
			m.goPanicStr("runtime error: negative shift amount")
		}
	}
	if p.p == nil && q.p == nil {
		if left {
			if q.u >= 64 {
				return V{}
			}
			return V{u: k.norm(p.u << q.u)}
		}
		if k.s {
			s := q.u
			if s > 63 {
				s = 63
			}
			return V{u: uint64(int64(p.u) >> s)}
		}
		if q.u >= 64 {
			return V{}
		}
		return V{u: p.u >> q.u}
	}
	tt := m.tt
	x := m.term(p, k.w)
	y := m.term(q, ky.w)
	var big *Term
	if ky.w > k.w {
		big = tt.Ule(tt.BVu(ky.w, uint64(k.w)), y)
		y = tt.Extract(y, k.w-1, 0)
	} else {
		y = tt.Zext(y, k.w)
		big = tt.False
	}
	var res, ov *Term
	switch {
	case left:
		res, ov = tt.Shl(x, y), tt.BVu(k.w, 0)
	case k.s:
		res, ov = tt.Ashr(x, y), tt.Ashr(x, tt.BVu(k.w, uint64(k.w-1)))
	default:
		res, ov = tt.Lshr(x, y), tt.BVu(k.w, 0)
	}
	return k.mkV(tt.Ite(big, ov, res))
}

func (c *compiler) convert(x ssa.Value, from, to types.Type, src ssa.Value) func(fr *frame) {
	r, o := c.reg[x], c.op(src)
	fk, fi := intKind(from)
	tk, ti := intKind(to)
	fb, fIsB := from.Underlying().(*types.Basic)
	tb, tIsB := to.Underlying().(*types.Basic)
	switch {
	case fi && ti:
		return func(fr *frame) { fr.regs[r] = fr.m.convInt(fr.get(o), fk, tk) }
	case fi && isFloat(to):
		f32 := tb.Kind() == types.Float32
		return func(fr *frame) {
			if x := fr.get(o); x.p != nil && fr.m.conc == nil {
				fr.regs[r] = V{p: opaqueFloat{}}
				return
			}
			u := fr.m.concretize(fr.get(o), fk)
			f := float64(u)
			if fk.s {
				f = float64(int64(u))
			}
			if f32 {
				f = float64(float32(f))
			}
			fr.regs[r] = fV(f)
		}
	case isFloat(from) && ti:
		return func(fr *frame) {
			f := f64(fr.get(o))
			if tk.s {
				fr.regs[r] = V{u: tk.norm(uint64(int64(f)))}
			} else {
				fr.regs[r] = V{u: tk.norm(uint64(f))}
			}
		}
	case isFloat(from) && isFloat(to):
		f32 := tb.Kind() == types.Float32
		return func(fr *frame) {
			f := f64(fr.get(o))
			if f32 {
				f = float64(float32(f))
			}
			fr.regs[r] = fV(f)
		}
	case isString(to) && fi:
		return func(fr *frame) {
			fr.regs[r] = sV(string(rune(int64(fr.m.concretize(fr.get(o), fk)))))
		}
	case isString(from) && isString(to):
		return func(fr *frame) { fr.regs[r] = fr.get(o) }
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if k, _ := intKind(sl.Elem()); k.w == 8 {
				return func(fr *frame) {
					v := fr.get(o)
					if ov, ok := v.p.(*OpaqueStr); ok {
						fr.regs[r] = V{p: ov}
						return
					}
					b := fr.m.sliceV(v)
					fr.regs[r] = mkStr(append([]V{}, b...))
				}
			}
			return func(fr *frame) { // []rune
				var rs []rune
				for _, e := range fr.m.sliceV(fr.get(o)) {
					rs = append(rs, rune(fr.m.concretize(e, ik{32, true})))
				}
				fr.regs[r] = sV(string(rs))
			}
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if k, _ := intKind(sl.Elem()); k.w == 8 {
				return func(fr *frame) {
					v := fr.get(o)
					if ov, ok := v.p.(*OpaqueStr); ok {
						fr.regs[r] = V{p: ov}
						return
					}
					fr.regs[r] = fr.m.mkSlice(append([]V{}, fr.m.strBytes(v)...))
				}
			}
			return func(fr *frame) {
				var e []V
				for _, c := range fr.m.concStr(fr.get(o)) {
					e = append(e, V{u: uint64(int64(c))})
				}
				fr.regs[r] = fr.m.mkSlice(e)
			}
		}
	case fIsB && fb.Kind() == types.UnsafePointer || tIsB && tb.Kind() == types.UnsafePointer:
		return func(fr *frame) { fr.regs[r] = fr.get(o) }
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return func(fr *frame) { fr.regs[r] = fr.get(o) }
	}
	// slice to array
	if at, ok := to.Underlying().(*types.Array); ok {
		n := int(at.Len())
		return func(fr *frame) {
			e := fr.m.sliceV(fr.get(o))
			if len(e) < n {
				fr.m.goPanicStr(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(e), n))
			}
			a := fr.m.newAgg(n)
			for i := range a.e {
				a.e[i] = fr.m.copyV(e[i])
			}
			fr.regs[r] = aggV(a)
		}
	}
	return func(fr *frame) { fr.m.unsupported("convert %s to %s", from, to) }
}

func (m *Machine) convInt(v V, fk, tk ik) V {
	if v.p == nil {
		return V{u: tk.norm(v.u)}
	}
	t := m.term(v, fk.w)
	switch {
	case tk.w < fk.w:
		t = m.tt.Extract(t, tk.w-1, 0)
	case tk.w > fk.w && fk.s:
		t = m.tt.Sext(t, tk.w)
	case tk.w > fk.w:
		t = m.tt.Zext(t, tk.w)
	}
	return tk.mkV(t)
}

func (m *Machine) strIndex(s, i V, ki ik) V {
	n := m.strLen(s)
	if str, ok := s.p.(string); ok && i.p == nil {
		if i.u >= uint64(n) {
			m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.u), n))
		}
		return V{u: uint64(str[i.u])}
	}
	b := m.strBytes(s)
	a := &Agg{e: b}
	return m.indexRead(a, 0, n, i, ki, ik{8, false}, true, false)
}

func (m *Machine) idx64(i V, ki ik) *Term {
	t := m.term(i, ki.w)
	if ki.w < 64 {
		if ki.s {
			return m.tt.Sext(t, 64)
		}
		return m.tt.Zext(t, 64)
	}
	return t
}

func (m *Machine) indexRead(a *Agg, off, n int, i V, ki, ek ik, isI, isB bool) V {
	if i.p == nil {
		if i.u >= uint64(n) {
			m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.u), n))
		}
		return a.e[off+int(i.u)]
	}
	t := m.idx64(i, ki)
	if !m.decide(m.tt.Ult(t, m.tt.BVu(64, uint64(n)))) {
		m.goPanicStr("runtime error: index out of range")
	}
	if isI || isB {
		if isB {
			ek = ik{}
		}
		return m.load(V{p: &SymPtr{a: a, off: off, n: n, idx: t, k: ek}})
	}
	return a.e[off+int(m.concretize(V{p: t}, ik{64, false}))]
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) func(fr *frame) {
	r, o, io := c.reg[x], c.op(x.X), c.op(x.Index)
	ki, _ := intKind(x.Index.Type())
	et := x.Type().Underlying().(*types.Pointer).Elem()
	agg := isAgg(et)
	ek, isI := intKind(et)
	isB := isBool(et)
	_, isSlice := x.X.Type().Underlying().(*types.Slice)
	return func(fr *frame) {
		m := fr.m
		v := fr.get(o)
		var a *Agg
		off, n := 0, 0
		if isSlice {
			if v.p != nil {
				s, ok := v.p.(*Slice)
				if !ok {
					m.bad(v, "slice")
				}
				a, off, n = s.a, s.off, s.len
			}
		} else {
			if v.p == nil {
				m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			aa, ok := v.p.(*Agg)
			if !ok || v.u != WHOLE {
				m.bad(v, "array pointer")
			}
			a, n = aa, len(aa.e)
		}
		i := fr.get(io)
		if i.p == nil {
			if i.u >= uint64(n) {
				m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.u), n))
			}
			j := off + int(i.u)
			if agg {
				fr.regs[r] = V{p: a.e[j].p, u: WHOLE}
			} else {
				fr.regs[r] = V{p: a, u: uint64(j)}
			}
			return
		}
		t := m.idx64(i, ki)
		if !m.decide(m.tt.Ult(t, m.tt.BVu(64, uint64(n)))) {
			m.goPanicStr("runtime error: index out of range")
		}
		if !agg && (isI || isB) {
			k := ek
			if isB {
				k = ik{}
			}
			fr.regs[r] = V{p: &SymPtr{a: a, off: off, n: n, idx: t, k: k}}
			return
		}
		j := off + int(m.concretize(V{p: t}, ik{64, false}))
		if agg {
			fr.regs[r] = V{p: a.e[j].p, u: WHOLE}
		} else {
			fr.regs[r] = V{p: a, u: uint64(j)}
		}
	}
}

func (c *compiler) lookup(x *ssa.Lookup) func(fr *frame) {
	r, o, ko := c.reg[x], c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		ki, _ := intKind(x.Index.Type())
		return func(fr *frame) { fr.regs[r] = fr.m.strIndex(fr.get(o), fr.get(ko), ki) }
	}
	mt := x.X.Type().Underlying().(*types.Map)
	z := zeroFn(mt.Elem())
	ok := x.CommaOk
	return func(fr *frame) {
		mv := fr.get(o)
		var e *mapEnt
		if mv.p != nil {
			mo, isM := mv.p.(*MapObj)
			if !isM {
				fr.m.bad(mv, "map")
			}
			e, _, _ = fr.m.mapFind(mo, fr.get(ko))
		}
		var v V
		if e != nil {
			v = e.v
		} else {
			v = z(fr.m)
		}
		if ok {
			fr.regs[r] = tupV(v, bV(e != nil))
		} else {
			fr.regs[r] = v
		}
	}
}

type mapIter struct {
	o     *MapObj
	ents  []*mapEnt
	i     int
	order []int
}
type strIter struct {
	v V
	b []V
	i int
}

func (m *Machine) rangeIter(v V, isStr bool) V {
	if isStr {
		return V{p: &strIter{v: v, b: m.strBytes(v)}}
	}
	if v.p == nil {
		return V{p: &mapIter{}}
	}
	o, ok := v.p.(*MapObj)
	if !ok {
		m.bad(v, "map")
	}
	it := &mapIter{o: o}
	for _, e := range o.ents {
		if !e.dead {
			it.ents = append(it.ents, e)
		}
	}
	if len(it.ents) > 1 && m.x.cfg.MapOrder && m.inInit == 0 && m.mapOrderHere() {
		switch m.choose(2) {
		case 1:
			for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
				it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
			}
		}
	}
	return V{p: it}
}

func (m *Machine) mapOrderHere() bool {
	f := m.top()
	return f != nil && strings.Contains(f.fn.name, "minievm")
}

func (m *Machine) next(v V, isStr bool) V {
	if isStr {
		it := v.p.(*strIter)
		if it.i >= len(it.b) {
			return tupV(V{}, V{}, V{})
		}
		i := it.i
		x := it.b[i]
		if x.p == nil && x.u < 0x80 {
			it.i++
			return tupV(bV(true), iV(i), x)
		}
		if x.p != nil {
			t := m.term(x, 8)
			if m.decide(m.tt.Ult(t, m.tt.BVu(8, 0x80))) {
				it.i++
				return tupV(bV(true), iV(i), V{p: m.tt.Zext(t, 32)})
			}
		}
		var buf []byte
		for j := i; j < len(it.b) && j < i+4; j++ {
			buf = append(buf, byte(m.concretize(it.b[j], ik{8, false})))
		}
		rn, sz := utf8.DecodeRune(buf)
		it.i += sz
		return tupV(bV(true), iV(i), V{u: uint64(int64(rn))})
	}
	it := v.p.(*mapIter)
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if !e.dead {
			return tupV(bV(true), e.k, e.v)
		}
	}
	return tupV(V{}, V{}, V{})
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	r, o := c.reg[x], c.op(x.X)
	at := x.AssertedType
	commaOk := x.CommaOk
	z := zeroFn(at)
	it, isI := at.Underlying().(*types.Interface)
	var rt *RT
	if !isI {
		rt = canonRT(at)
	}
	p := c.p
	return func(fr *frame) {
		v := fr.get(o)
		ok := false
		var res V
		if v.p != nil {
			x, isIf := v.p.(*Iface)
			if !isIf {
				fr.m.bad(v, "interface")
			}
			if isI {
				if p.implements(x.rt, it) {
					ok, res = true, v
				}
			} else if x.rt == rt {
				ok, res = true, x.v
			}
		}
		if commaOk {
			if !ok {
				res = z(fr.m)
			}
			fr.regs[r] = tupV(res, bV(ok))
			return
		}
		if !ok {
			d := "nil"
			if v.p != nil {
				d = v.p.(*Iface).rt.named
			}
			fr.m.goPanicStr("interface conversion: interface is " + d + ", not " + at.String())
		}
		fr.regs[r] = res
	}
}

func (c *compiler) slice(x *ssa.Slice) func(fr *frame) {
	r, o := c.reg[x], c.op(x.X)
	mk := func(v ssa.Value) (opnd, ik, bool) {
		if v == nil {
			return opnd{}, ik{}, false
		}
		k, _ := intKind(v.Type())
		return c.op(v), k, true
	}
	lo, lk, hl := mk(x.Low)
	hi, hk, hh := mk(x.High)
	mx, mk2, hm := mk(x.Max)
	isStr := isString(x.X.Type())
	var et types.Type
	if !isStr {
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
	}
	eagg := et != nil && isAgg(et)
	var z func(m *Machine) V
	if eagg {
		z = zeroFn(et)
	}
	return func(fr *frame) {
		m := fr.m
		v := fr.get(o)
		get := func(o opnd, k ik, has bool, def int) int {
			if !has {
				return def
			}
			u := m.concretize(fr.get(o), k)
			if !k.s && u > 1<<62 {
				u = 1 << 62
			}
			return int(int64(u))
		}
		if isStr {
			n := m.strLen(v)
			l, h := get(lo, lk, hl, 0), get(hi, hk, hh, n)
			if l < 0 || h < l || h > n {
				m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if s, ok := v.p.(string); ok {
				fr.regs[r] = sV(s[l:h])
			} else if v.p == nil {
				fr.regs[r] = v
			} else {
				fr.regs[r] = mkStr(m.strBytes(v)[l:h])
			}
			return
		}
		var a *Agg
		off, ln, cp := 0, 0, 0
		switch s := v.p.(type) {
		case nil:
			if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
				m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
		case *Slice:
			a, off, ln, cp = s.a, s.off, s.len, s.cap
		case *Agg:
			if v.u != WHOLE {
				m.unsupported("slice of reinterpreted pointer")
			}
			a, ln, cp = s, len(s.e), len(s.e)
		default:
			m.bad(v, "slice")
		}
		l, h := get(lo, lk, hl, 0), get(hi, hk, hh, ln)
		c2 := get(mx, mk2, hm, cp)
		if c2 > cp || h > c2 || l > h || l < 0 {
			m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c2, cp))
		}
		if a == nil {
			fr.regs[r] = V{}
			return
		}
		if eagg {
			for i := off + l; i < off+h; i++ {
				if a.e[i].p == nil {
					a.e[i] = z(m)
				}
			}
		}
		fr.regs[r] = V{p: &Slice{a, off + l, h - l, c2 - l}}
	}
}

// ---------- calls ----------

// callee returns a resolver giving the closure and full args
func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame, args []V) (*Closure, []V) {
	if cc.IsInvoke() {
		o := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame, args []V) (*Closure, []V) {
			fn, recv := fr.m.resolveInvoke(fr.get(o), meth)
			return &Closure{fn: fn}, append([]V{recv}, args...)
		}
	}
	o := c.op(cc.Value)
	return func(fr *frame, args []V) (*Closure, []V) {
		f := fr.get(o)
		cl, ok := f.p.(*Closure)
		if !ok {
			if f.p == nil {
				fr.m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil func)")
			}
			fr.m.bad(f, "func")
		}
		return cl, args
	}
}

func (m *Machine) resolveInvoke(v V, meth *types.Func) (*Fn, V) {
	x, ok := v.p.(*Iface)
	if !ok {
		if v.p == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil interface calling " + meth.Name() + ")")
		}
		m.bad(v, "interface for "+meth.Name())
	}
	fn := m.pr.methodOf(x.rt, meth)
	if fn == nil {
		m.unsupported("method %s not found on %s", meth.FullName(), x.rt.named)
	}
	return fn, x.v
}

func (c *compiler) call(x *ssa.Call) (func(fr *frame), bool) {
	r := c.reg[x]
	cc := &x.Call
	args := c.ops(cc.Args)
	gather := func(fr *frame, extra int) []V {
		vs := make([]V, len(args)+extra)
		for i := range args {
			vs[i+extra] = fr.get(args[i])
		}
		return vs
	}
	if cc.IsInvoke() {
		o := c.op(cc.Value)
		meth := cc.Method
		var lastRT *RT
		var lastFn *Fn
		_ = lastRT
		_ = lastFn
		return func(fr *frame) {
			fn, recv := fr.m.resolveInvoke(fr.get(o), meth)
			vs := gather(fr, 1)
			vs[0] = recv
			fr.regs[r] = fr.m.call(fn, vs, nil, nil)
		}, true
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		spec := false
		switch f.Name() {
		case "len", "cap", "min", "max":
			spec = true
		}
		return func(fr *frame) { fr.regs[r] = fr.m.builtin(fr, f, gather(fr, 0), cc) }, spec
	case *ssa.Function:
		if f.Name() == "init" && f.Synthetic == "package initializer" {
			return nil, false // imports are initialised lazily
		}
		fn := c.p.fnOf(f)
		return func(fr *frame) { fr.regs[r] = fr.m.call(fn, gather(fr, 0), nil, nil) }, true
	case *ssa.MakeClosure:
		// falls to dynamic
	}
	o := c.op(cc.Value)
	return func(fr *frame) {
		f := fr.get(o)
		fr.regs[r] = fr.m.callV(f, gather(fr, 0))
	}, true
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	sz := nc * esz
	if sz <= 32768 {
		for _, c := range sizeClasses {
			if c >= sz {
				return c / esz
			}
		}
	}
	return ((sz + 8191) / 8192 * 8192) / esz
}

func (m *Machine) appendV(sv V, add []V, et types.Type) V {
	var s Slice
	if sv.p != nil {
		p, ok := sv.p.(*Slice)
		if !ok {
			m.bad(sv, "slice")
		}
		s = *p
	}
	if len(add) == 0 {
		return sv
	}
	n := s.len + len(add)
	if n <= s.cap {
		if m.spec > 0 {
			panic(specAbort{})
		}
		for i, v := range add {
			m.setElem(s.a, s.off+s.len+i, v)
		}
		return V{p: &Slice{s.a, s.off, n, s.cap}}
	}
	esz := int(m.pr.sizes.Sizeof(et))
	nc := growCap(s.cap, n, esz)
	a := m.newAgg(nc)
	for i := 0; i < s.len; i++ {
		a.e[i] = m.copyV(s.a.e[s.off+i])
	}
	for i, v := range add {
		a.e[s.len+i] = m.copyV(v)
	}
	return V{p: &Slice{a, 0, n, nc}}
}

func (m *Machine) setElem(a *Agg, i int, v V) {
	if v.u == AGG && v.p != nil {
		if sa, ok := v.p.(*Agg); ok {
			if da, ok := a.e[i].p.(*Agg); ok && a.e[i].u == AGG {
				m.copyInto(da, m.copyAgg(sa))
				return
			}
			v = m.copyV(v)
		}
	}
	m.write(a, i, v)
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []V, cc *ssa.CallCommon) V {
	switch b.Name() {
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return args[0]
		}
		var add []V
		if isString(cc.Args[1].Type()) {
			add = m.strBytes(args[1])
		} else {
			if ov, ok := args[1].p.(*OpaqueStr); ok {
				m.unsupported("append of opaque bytes %s", ov.desc)
			}
			add = m.sliceV(args[1])
		}
		return m.appendV(args[0], append([]V{}, add...), et)
	case "copy":
		if m.spec > 0 {
			panic(specAbort{})
		}
		var src []V
		if isString(cc.Args[1].Type()) {
			src = m.strBytes(args[1])
		} else {
			src = m.sliceV(args[1])
		}
		if args[0].p == nil {
			return V{}
		}
		d, ok := args[0].p.(*Slice)
		if !ok {
			m.bad(args[0], "slice")
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		tmp := make([]V, n)
		for i := range tmp {
			tmp[i] = m.copyV(src[i])
		}
		for i := range tmp {
			m.setElem(d.a, d.off+i, tmp[i])
		}
		return iV(n)
	case "len", "cap":
		return m.lenCap(b.Name() == "cap", args[0], cc.Args[0].Type())
	case "delete":
		if args[0].p == nil {
			return V{}
		}
		o, ok := args[0].p.(*MapObj)
		if !ok {
			m.bad(args[0], "map")
		}
		m.mapDelete(o, args[1])
		return V{}
	case "print", "println":
		return V{}
	case "recover":
		if fr.deferOf != nil && fr.deferOf.pan != nil {
			p := fr.deferOf.pan
			fr.deferOf.pan = nil
			return p.v
		}
		return V{}
	case "close":
		ch, ok := args[0].p.(*ChanObj)
		if !ok {
			m.goPanicStr("close of nil channel")
		}
		if ch.closed {
			m.goPanicStr("close of closed channel")
		}
		ch.closed = true
		return V{}
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			if k, ok := intKind(t); ok {
				lt := m.binAny(token.LSS, k, a, r)
				if b.Name() == "max" {
					lt = m.binAny(token.LSS, k, r, a)
				}
				if lt.p == nil {
					if lt.u != 0 {
						r = a
					}
				} else {
					r = k.mkV(m.tt.Ite(m.bterm(lt), m.term(a, k.w), m.term(r, k.w)))
				}
			} else if isFloat(t) {
				if b.Name() == "min" {
					r = fV(math.Min(f64(r), f64(a)))
				} else {
					r = fV(math.Max(f64(r), f64(a)))
				}
			} else {
				m.unsupported("min/max on %s", t)
			}
		}
		return r
	case "clear":
		if m.spec > 0 {
			panic(specAbort{})
		}
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if args[0].p != nil {
				o := args[0].p.(*MapObj)
				m.mapSave(o)
				o.ents, o.idx, o.n, o.nsym = nil, map[string]int{}, 0, 0
			}
		case *types.Slice:
			z := zeroFn(u.Elem())
			if args[0].p != nil {
				s := args[0].p.(*Slice)
				for i := 0; i < s.len; i++ {
					m.setElem(s.a, s.off+i, z(m))
				}
			}
		}
		return V{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.goPanicStr("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.concretize(args[1], ik{64, true}))
		if n == 0 {
			return V{}
		}
		a, ok := args[0].p.(*Agg)
		if !ok {
			m.bad(args[0], "byte pointer")
		}
		return mkStr(append([]V{}, a.e[args[0].u:int(args[0].u)+n]...))
	case "StringData":
		bs := m.strBytes(args[0])
		if len(bs) == 0 {
			return V{}
		}
		return V{p: &Agg{e: append([]V{}, bs...)}}
	case "SliceData":
		if args[0].p == nil {
			return V{}
		}
		s := args[0].p.(*Slice)
		if s.off < len(s.a.e) && s.a.e[s.off].u == AGG && s.a.e[s.off].p != nil {
			return V{p: s.a.e[s.off].p, u: WHOLE}
		}
		return V{p: s.a, u: uint64(s.off)}
	case "Slice":
		n := int(m.concretize(args[1], ik{64, true}))
		if args[0].p == nil {
			return V{}
		}
		a, ok := args[0].p.(*Agg)
		if !ok || args[0].u == WHOLE {
			m.bad(args[0], "scalar pointer")
		}
		return V{p: &Slice{a, int(args[0].u), n, n}}
	}
	m.unsupported("builtin %s", b.Name())
	return V{}
}

func (m *Machine) binAny(op token.Token, k ik, p, q V) V {
	if p.p == nil && q.p == nil {
		return intFast(op, k)(p.u, q.u)
	}
	return m.binSym(op, k, p, q)
}

func (m *Machine) lenCap(cp bool, v V, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return iV(m.strLen(v))
	case *types.Array:
		return iV(int(u.Len()))
	case *types.Pointer:
		return iV(int(u.Elem().Underlying().(*types.Array).Len()))
	}
	switch x := v.p.(type) {
	case nil:
		return V{}
	case *Slice:
		if cp {
			return iV(x.cap)
		}
		return iV(x.len)
	case *MapObj:
		return iV(x.n)
	case *ChanObj:
		if cp {
			return iV(x.cap)
		}
		return iV(len(x.buf))
	}
	m.bad(v, "len operand")
	return V{}
}

// ---------- channels (run-to-completion goroutines) ----------

func (m *Machine) send(ch, v V) {
	c, ok := ch.p.(*ChanObj)
	if !ok {
		m.unsupported("send on nil channel blocks")
	}
	if c.closed {
		m.goPanicStr("send on closed channel")
	}
	if len(c.buf) >= c.cap && !m.runQueued() {
		m.unsupported("blocking send")
	}
	if len(c.buf) >= c.cap {
		m.unsupported("blocking send")
	}
	c.buf = append(c.buf, v)
}

func (m *Machine) recv(ch V, z func(*Machine) V) (V, bool) {
	c, ok := ch.p.(*ChanObj)
	if !ok {
		m.unsupported("receive on nil channel blocks")
	}
	for len(c.buf) == 0 {
		if c.closed {
			return z(m), false
		}
		if !m.runQueued() {
			m.unsupported("blocking receive")
		}
	}
	v := c.buf[0]
	c.buf = append([]V{}, c.buf[1:]...)
	return v, true
}

func (m *Machine) runQueued() bool {
	if len(m.queueGo) == 0 {
		return false
	}
	f := m.queueGo[0]
	m.queueGo = m.queueGo[1:]
	f()
	return true
}

func (m *Machine) goStmt(cl *Closure, args []V) {
	m.queueGo = append(m.queueGo, func() {
		if cl.native != nil {
			cl.native(m, m.top(), args)
			return
		}
		m.call(cl.fn, args, cl.free, nil)
	})
}

func (c *compiler) selectI(x *ssa.Select) func(fr *frame) {
	r := c.reg[x]
	type st struct {
		send   bool
		ch, v  opnd
		z      func(*Machine) V
		hasRes bool
	}
	var sts []st
	for _, s := range x.States {
		e := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if e.send {
			e.v = c.op(s.Send)
		} else {
			e.z = zeroFn(s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		m := fr.m
		nrecv := 0
		for _, s := range sts {
			if !s.send {
				nrecv++
			}
		}
		for {
			var ready []int
			for i, s := range sts {
				ch, ok := fr.get(s.ch).p.(*ChanObj)
				if !ok {
					continue
				}
				if s.send && (ch.closed || len(ch.buf) < ch.cap) || !s.send && (len(ch.buf) > 0 || ch.closed) {
					ready = append(ready, i)
				}
			}
			pick := -1
			if len(ready) > 0 {
				pick = ready[m.choose(len(ready))]
			} else if blocking {
				if m.runQueued() {
					continue
				}
				m.unsupported("blocking select")
			}
			t := &Tuple{e: make([]V, 2+nrecv)}
			t.e[0] = iV(pick)
			k := 2
			for i, s := range sts {
				if s.send {
					if i == pick {
						m.send(fr.get(s.ch), fr.get(s.v))
					}
					continue
				}
				if i == pick {
					v, ok := m.recv(fr.get(s.ch), s.z)
					t.e[k], t.e[1] = v, bV(ok)
				} else {
					t.e[k] = s.z(m)
				}
				k++
			}
			fr.regs[r] = V{p: t}
			return
		}
	}
}
