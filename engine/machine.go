package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}
type pathEnd struct {
	kind string // "infeasible","incomplete","unsupported","done","budget"
	msg  string
	at   string
}
type goPanic struct {
	v       V // interface value
	at      string
	stack   []string
	runtime bool
	exit    bool
}

type work struct {
	prefix []uint32
	model  *Model
	depth  int
}

type Machine struct {
	jsonStrict, jsonNumber bool
	x          *Explorer
	pr         *Prog
	tt         *TT
	sv         *Solver

	globals  map[*ssa.Global]V
	initDone map[*ssa.Package]bool
	inInit   int

	journal    []jent
	mapJournal [][2]*MapObj
	sideTabs   map[string]any // per-path tables for intrinsics
	perm       map[string]any // per-worker tables
	once       int            // > 0 while running a rt.Once function
	onceHash   []onceEnt

	// path state
	prefix      []uint32
	pos         int
	taken       []uint32
	pc          []*Term
	npc         int // asserted to solver
	begun       bool
	model       *Model
	spec        int
	steps       int64
	depth       int
	deadline    time.Time
	ndec        int
	inputs      []input
	inNames     map[string]int
	frames      []*frame
	obs         []string
	reached     map[string]bool
	chooseN     int
	forks       map[string]int
	conc        map[string]string // concrete inputs (validation mode)
	fresh       int
	obligations int
	asserts     map[string]int
	queueGo     []func()
	lastAt      string
	obsV        []obsEnt
}

type input struct {
	name string
	kind string // bool,u8..,int,bytes,big
	t    *Term
	ts   []V
}

func (m *Machine) unsupported(f string, a ...any) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...), m.where()})
}

func (m *Machine) where() string {
	var out []string
	for i := len(m.frames) - 1; i >= 0 && len(out) < 14; i-- {
		out = append(out, m.frames[i].loc())
	}
	return strings.Join(out, " < ")
}

func (fr *frame) loc() string {
	pos := ""
	if fr.blk != nil && fr.pc < len(fr.blk.src) {
		p := fr.m.pr.fset.Position(fr.blk.src[fr.pc].Pos())
		if p.IsValid() {
			f := p.Filename
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			pos = fmt.Sprintf("(%s:%d)", f, p.Line)
		}
	}
	return fr.fn.name + pos
}

func (m *Machine) resetPath(w work) {
	m.tt = NewTT()
	m.prefix, m.pos = w.prefix, 0
	m.taken = m.taken[:0]
	m.pc, m.npc, m.begun = nil, 0, false
	m.model = nil
	if w.model != nil {
		m.model = w.model.fork()
	}
	m.spec, m.steps, m.depth, m.ndec, m.chooseN, m.fresh = 0, 0, 0, 0, 0, 0
	m.inputs = nil
	m.inNames = map[string]int{}
	m.frames = m.frames[:0]
	m.obs = nil
	m.sideTabs = map[string]any{}
	m.queueGo = nil
	m.inInit, m.once = 0, 0
}

func (m *Machine) rollback() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		j := m.journal[i]
		j.a.e[j.i] = j.old
	}
	m.journal = m.journal[:0]
	for i := len(m.mapJournal) - 1; i >= 0; i-- {
		p := m.mapJournal[i]
		c := p[1]
		c.saved = false
		*p[0] = *c
	}
	m.mapJournal = m.mapJournal[:0]
}

// ---------- path condition ----------

func (m *Machine) flush() {
	if !m.begun {
		m.sv.BeginPath()
		m.begun = true
	}
	for ; m.npc < len(m.pc); m.npc++ {
		m.sv.Assert(m.pc[m.npc])
	}
}

func (m *Machine) addPC(t *Term) {
	if t == m.tt.True {
		return
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) check(extra *Term, want bool) (Res, *Model) {
	if extra == m.tt.False {
		return Unsat, nil
	}
	m.flush()
	if time.Now().After(m.deadline) {
		panic(pathEnd{"budget", "time budget", m.where()})
	}
	t0 := time.Now()
	r, md := m.sv.Check(extra, want)
	if slowQ > 0 && time.Since(t0) > slowQ {
		es := "-"
		if extra != nil {
			es = extra.str(4)
			if len(es) > 600 {
				es = es[:600]
			}
		}
		fmt.Printf("SLOW %.2fs %v want=%v @ %s\n   %s\n", time.Since(t0).Seconds(), r, want, m.where(), es)
	}
	m.x.noteQuery(r)
	return r, md
}

// ensureModel makes sure m.model satisfies the path condition
func (m *Machine) ensureModel() bool {
	if m.model != nil {
		return true
	}
	if len(m.pc) == 0 {
		m.model = newModel()
		return true
	}
	r, md := m.check(nil, true)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", "", ""})
	case Sat:
		m.model = md
		return md != nil
	}
	return false
}

func (m *Machine) evalBool(t *Term) bool { return m.model.Eval(t).Sign() != 0 }

// constrain adds t (known to be consistent or to be checked later)
func (m *Machine) constrain(t *Term) {
	if t == m.tt.False {
		panic(pathEnd{"infeasible", "", ""})
	}
	m.addPC(t)
	if m.model != nil && !m.evalBool(t) {
		m.model = nil
	}
}

func (m *Machine) decide(c *Term) bool {
	if c.isC() {
		return c.u != 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.conc != nil || m.once > 0 {
		m.unsupported("symbolic decision in concrete mode")
	}
	m.ndec++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.taken = append(m.taken, d)
		switch d {
		case 0:
			m.constrain(m.tt.Not(c))
			return false
		case 1:
			m.constrain(c)
			return true
		case 2: // forced false
			return false
		case 3:
			return true
		}
		panic(pathEnd{"unsupported", "decision replay mismatch", m.where()})
	}
	if m.ndec > m.x.cfg.MaxDecisions {
		panic(pathEnd{"budget", "decision limit", m.where()})
	}
	dir := true
	if m.ensureModel() {
		dir = m.evalBool(c)
	}
	side := c
	if dir {
		side = m.tt.Not(c)
	}
	m.x.noteFork(m)
	r, amd := m.check(side, true)
	if r == Unsat {
		code := uint32(2)
		if dir {
			code = 3
		}
		m.taken = append(m.taken, code)
		m.pos++
		m.prefix = m.taken
		return dir
	}
	if r == Unknown {
		m.x.noteUnknown("branch", m.where())
	}
	alt := append(append([]uint32{}, m.taken...), b2u(!dir))
	m.x.push(work{prefix: alt, depth: len(alt), model: amd})
	m.taken = append(m.taken, b2u(dir))
	m.pos++
	m.prefix = m.taken
	if dir {
		m.constrain(c)
	} else {
		m.constrain(m.tt.Not(c))
	}
	return dir
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

// choose: nondeterministic choice among n alternatives, all explored
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.taken = append(m.taken, d)
		return int(d - 16)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]uint32{}, m.taken...), uint32(16+i))
		m.x.push(work{prefix: alt, depth: len(alt), model: m.modelFork()})
	}
	m.taken = append(m.taken, 16)
	m.pos++
	m.prefix = m.taken
	return 0
}

// concretize picks a concrete value, exploring the others on other paths
func (m *Machine) concretize(v V, k ik) uint64 {
	if v.p == nil {
		return v.u
	}
	t := m.term(v, k.w)
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.conc != nil {
		m.unsupported("concretize in concrete mode")
	}
	lo, hi := t.bounds()
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return k.norm(lo.Uint64())
	}
	for n := 0; ; n++ {
		if n > m.x.cfg.MaxConcretize {
			panic(pathEnd{"budget", "concretization limit", m.where()})
		}
		// choose the candidate deterministically on replay: encoded in the prefix
		var cand *big.Int
		if m.pos < len(m.prefix) {
			if m.pos+2 >= len(m.prefix) {
				panic(pathEnd{"unsupported", "concretization replay mismatch", m.where()})
			}
			cand = new(big.Int).SetUint64(uint64(m.prefix[m.pos]) | uint64(m.prefix[m.pos+1])<<32)
			m.taken = append(m.taken, m.prefix[m.pos], m.prefix[m.pos+1])
			m.pos += 2
		} else {
			if !m.ensureModel() {
				panic(pathEnd{"incomplete", "no model for concretization", m.where()})
			}
			cand = m.model.Eval(t)
			cu := cand.Uint64()
			m.taken = append(m.taken, uint32(cu), uint32(cu>>32))
			m.pos += 2
			m.prefix = m.taken
		}
		c := m.tt.Eq(t, m.tt.BVb(k.w, cand))
		if c.isC() {
			if c.u != 0 {
				return k.norm(cand.Uint64())
			}
			continue
		}
		if m.decide(c) {
			return k.norm(cand.Uint64())
		}
	}
}

func (m *Machine) assume(c *Term) {
	if c == m.tt.True {
		return
	}
	if c == m.tt.False {
		panic(pathEnd{"infeasible", "assume", ""})
	}
	if m.conc != nil {
		m.unsupported("symbolic assume in concrete mode")
	}
	m.constrain(c)
	if m.pos >= len(m.prefix) {
		if m.model == nil {
			m.ensureModel()
		}
	}
}

// assert reports whether it was discharged
func (m *Machine) assertT(c *Term, msg string) {
	m.x.noteObligation(m, msg)
	if c == m.tt.True {
		return
	}
	if m.pos < len(m.prefix) {
		// already checked by the path this one was forked from
		if c != m.tt.False {
			m.constrain(c)
			return
		}
	}
	if m.conc != nil {
		if c == m.tt.False {
			panic(pathEnd{"violation", msg, m.where()})
		}
		m.unsupported("symbolic assert in concrete mode")
	}
	neg := m.tt.Not(c)
	if c == m.tt.False {
		neg = m.tt.True
	}
	r, md := m.check(neg, true)
	switch r {
	case Unsat:
		return
	case Unknown:
		m.x.noteUnknown("assert "+msg, m.where())
	case Sat:
		m.x.violation(m, md, msg, m.where())
	}
	if c == m.tt.False {
		panic(pathEnd{"violated", msg, ""})
	}
	m.constrain(c)
	m.model = nil
	m.ensureModel()
}

// modelInputs renders the inputs under a model
func (m *Machine) modelInputs(md *Model) map[string]string {
	r := map[string]string{}
	for _, in := range m.inputs {
		switch in.kind {
		case "bytes":
			var sb strings.Builder
			for _, b := range in.ts {
				v := b.u
				if t, ok := b.p.(*Term); ok {
					v = md.Eval(t).Uint64()
				}
				fmt.Fprintf(&sb, "%02x", byte(v))
			}
			r[in.name] = "x" + sb.String()
		default:
			r[in.name] = md.Eval(in.t).String()
		}
	}
	return r
}

// ---------- frames ----------

type deferred struct {
	fn     V // closure
	bi     *ssa.Builtin
	args   []V
	callfn func()
}

type frame struct {
	m       *Machine
	fn      *Fn
	regs    []V
	free    []V
	blk     *Blk
	pc      int
	prev    int
	defers  []func(fr *frame)
	pan     *goPanic
	deferOf *frame
	ret     V
	caller  *frame
}

func (m *Machine) goPanicStr(s string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	rt := m.pr.runtimeErrRT()
	panic(&goPanic{v: V{p: &Iface{rt, sV(s)}}, at: m.where(), runtime: true})
}

func (m *Machine) goPanicV(v V) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{v: v, at: m.where()})
}

func (m *Machine) panicDesc(v V) string {
	if v.p == nil {
		return "nil"
	}
	x, ok := v.p.(*Iface)
	if !ok {
		return m.desc(v)
	}
	switch x.v.p.(type) {
	case string, *SymStr, *OpaqueStr:
		return m.desc(x.v)
	}
	// try Error()
	if s, ok := m.tryErrStr(v); ok {
		return x.rt.named + ": " + s
	}
	return x.rt.named + " " + m.desc(x.v)
}

func (m *Machine) tryErrStr(v V) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s, ok = "", false
		}
	}()
	sv := m.errString(v)
	return m.desc(sv), true
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// errString calls Error() on an error value
func (m *Machine) errString(v V) V {
	x, ok := v.p.(*Iface)
	if !ok {
		return sV("<nil>")
	}
	f := m.pr.methodByName(x.rt, "Error")
	if f == nil {
		m.unsupported("no Error method on %s", x.rt.named)
	}
	return m.call(f, []V{x.v}, nil, nil)
}

func (m *Machine) callV(f V, args []V) V {
	c, ok := f.p.(*Closure)
	if !ok {
		if f.p == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil func)")
		}
		m.bad(f, "func")
	}
	if c.native != nil {
		return c.native(m, m.top(), args)
	}
	return m.call(c.fn, args, c.free, nil)
}

func (m *Machine) top() *frame {
	if len(m.frames) == 0 {
		return nil
	}
	return m.frames[len(m.frames)-1]
}

const maxDepth = 3000

func (m *Machine) call(fn *Fn, args []V, free []V, deferOf *frame) V {
	if fn.intr != nil {
		if m.spec > 0 && !fn.intrPure {
			panic(specAbort{})
		}
		m.x.noteIntr(fn)
		return fn.intr(m, fn, args)
	}
	if m.spec > 0 && !m.specCalls(fn) {
		panic(specAbort{})
	}
	if !fn.compiled.Load() {
		m.pr.compile(fn)
	}
	if fn.noBody {
		m.unsupported("no body: %s", fn.name)
	}
	m.noteFn(fn)
	if m.depth > maxDepth {
		panic(pathEnd{"budget", "call depth", m.where()})
	}
	m.depth++
	fr := &frame{m: m, fn: fn, regs: make([]V, fn.nregs), free: free, deferOf: deferOf, prev: -1}
	copy(fr.regs, args)
	m.frames = append(m.frames, fr)
	if fn.hasDefer {
		m.runDefer(fr)
	} else {
		m.exec(fr, 0)
	}
	m.frames = m.frames[:len(m.frames)-1]
	m.depth--
	return fr.ret
}

func (m *Machine) specCalls(fn *Fn) bool { return false }

func (m *Machine) noteFn(fn *Fn) {
	if (m.inInit == 0 || m.once > 0) && !fn.noted.Load() {
		fn.noted.Store(true)
		m.x.noteEncoded(fn)
	}
}

func (m *Machine) exec(fr *frame, bi int) {
	b := fr.fn.blocks[bi]
	for {
		fr.blk = b
		if b.nphi > 0 && fr.prev >= 0 {
			// parallel phi assignment
			k := b.predIdx(fr.prev)
			if b.nphi == 1 {
				fr.regs[b.phis[0].reg] = fr.get(b.phis[0].edges[k])
			} else {
				var tmp [8]V
				var vs []V
				if b.nphi <= 8 {
					vs = tmp[:b.nphi]
				} else {
					vs = make([]V, b.nphi)
				}
				for i := range b.phis {
					vs[i] = fr.get(b.phis[i].edges[k])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].reg] = vs[i]
				}
			}
		}
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.x.cfg.MaxSteps && m.inInit == 0 {
			panic(pathEnd{"budget", "step limit", m.where()})
		}
		if m.steps&0x3fff < int64(len(b.ins))+1 && time.Now().After(m.deadline) {
			panic(pathEnd{"budget", "time budget", m.where()})
		}
		for i, f := range b.ins {
			fr.pc = b.insPC[i]
			f(fr)
		}
		fr.pc = len(b.src) - 1
		fr.prev = b.index
		next := b.term(fr) // merged regions reset fr.prev to -1: phis already assigned
		if next < 0 {
			return
		}
		b = fr.fn.blocks[next]
	}
}

func (m *Machine) runDefer(fr *frame) {
	nfr, dep := len(m.frames), m.depth
	protect := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if p, ok := r.(*goPanic); ok && !p.exit {
					fr.pan = p
					for i := nfr; i < len(m.frames); i++ {
						m.frames[i] = nil
					}
					m.frames = m.frames[:nfr]
					m.depth = dep
					return
				}
				panic(r)
			}
		}()
		f()
	}
	protect(func() { m.exec(fr, 0) })
	if fr.pan == nil {
		return
	}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		old := fr.pan
		protect(func() { d(fr) })
		_ = old
	}
	if fr.pan != nil {
		p := fr.pan
		panic(p)
	}
	// recovered
	if fr.fn.recoverBlk >= 0 {
		fr.prev = -1
		protect(func() { m.exec(fr, fr.fn.recoverBlk) })
		if fr.pan != nil {
			panic(fr.pan)
		}
	} else {
		fr.ret = fr.fn.zeroRet(m)
	}
}

// ---------- allocation helpers ----------

func (m *Machine) newPtr(t types.Type, v V) V { // pointer to new variable of type t holding v
	if isAgg(t) {
		return ptrV(m.agg(m.copyV(v)))
	}
	a := m.newAgg(1)
	a.e[0] = v
	return V{p: a, u: 0}
}

func (m *Machine) load(p V) V {
	switch a := p.p.(type) {
	case *Agg:
		if p.u == WHOLE {
			return aggV(m.copyAgg(a))
		}
		return m.copyV(a.e[p.u])
	case *SymPtr:
		var r *Term
		for i := a.n - 1; i >= 0; i-- {
			e := a.a.e[a.off+i]
			et := m.scalarTerm(e, a)
			if r == nil {
				r = et
			} else {
				r = m.tt.Ite(m.tt.Eq(a.idx, m.tt.BVu(64, uint64(i))), et, r)
			}
		}
		if a.k.w == 0 {
			return boolV(r)
		}
		return a.k.mkV(r)
	case nil:
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	case *Poison:
		m.unsupported("poison pointer: %s", a.why)
	}
	m.unsupported("load through %T", p.p)
	return V{}
}

func (m *Machine) scalarTerm(v V, a *SymPtr) *Term {
	if a.k.w == 0 {
		return m.bterm(v)
	}
	return m.term(v, a.k.w)
}

func (m *Machine) store(p V, v V) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	switch a := p.p.(type) {
	case *Agg:
		if p.u == WHOLE {
			m.copyInto(a, m.agg(v))
			return
		}
		m.write(a, int(p.u), v)
		return
	case *SymPtr:
		for i := 0; i < a.n; i++ {
			c := m.tt.Eq(a.idx, m.tt.BVu(64, uint64(i)))
			r := m.tt.Ite(c, m.scalarTerm(v, a), m.scalarTerm(a.a.e[a.off+i], a))
			if a.k.w == 0 {
				m.write(a.a, a.off+i, boolV(r))
			} else {
				m.write(a.a, a.off+i, a.k.mkV(r))
			}
		}
		return
	case nil:
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	case *Poison:
		m.unsupported("poison pointer: %s", a.why)
	}
	m.unsupported("store through %T", p.p)
}

func sortedKeys[T any](mm map[string]T) []string {
	r := make([]string, 0, len(mm))
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = token.ADD

func (m *Machine) modelFork() *Model {
	if m.model == nil {
		return nil
	}
	return m.model.fork()
}

var slowQ = func() time.Duration { d, _ := time.ParseDuration(os.Getenv("SYMGO_SLOW")); return d }()
