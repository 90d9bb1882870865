package main

import "golang.org/x/tools/go/ssa"

// region: acyclic single-entry code between a conditional branch and its join,
// executed speculatively on both sides and merged with if-then-else terms.
type region struct {
	order []int // topological order of inner blocks
	join  int   // join block, or -1 when all inner paths return
}

const maxRegion = 24

func buildRegions(fn *Fn) {
	n := len(fn.blocks)
	if n < 3 || n > 4000 {
		return
	}
	ip := ipdoms(fn)
	for _, b := range fn.blocks {
		if len(b.succs) != 2 || b.cond.k == 0 && b.cond.v.p == nil {
			continue
		}
		b.region = mkRegion(fn, b, ip[b.index])
	}
}

func mkRegion(fn *Fn, b *Blk, join int) *region {
	n := len(fn.blocks)
	if join == n { // virtual exit
		join = -1
		if fn.hasDefer {
			return nil
		}
	}
	state := map[int]int{}
	var post []int
	var dfs func(i int) bool
	dfs = func(i int) bool {
		if i == join {
			return true
		}
		if i == b.index {
			return false
		}
		switch state[i] {
		case 1:
			return false
		case 2:
			return true
		}
		if len(state) > maxRegion {
			return false
		}
		x := fn.blocks[i]
		if !x.specOK {
			return false
		}
		state[i] = 1
		if len(x.succs) == 0 {
			if _, ok := x.src[len(x.src)-1].(*ssa.Return); !ok || join != -1 {
				return false
			}
		}
		for _, s := range x.succs {
			if !dfs(s) {
				return false
			}
		}
		state[i] = 2
		post = append(post, i)
		return true
	}
	for _, s := range b.succs {
		if !dfs(s) {
			return nil
		}
	}
	r := &region{join: join}
	for i := len(post) - 1; i >= 0; i-- {
		x := fn.blocks[post[i]]
		for _, p := range x.preds {
			if p != b.index && state[p] != 2 {
				return nil
			}
		}
		r.order = append(r.order, post[i])
	}
	return r
}

// ipdoms: immediate postdominators, n = virtual exit
func ipdoms(fn *Fn) []int {
	n := len(fn.blocks)
	// reverse postorder on reversed graph
	rs := make([][]int, n+1) // successors in reversed graph
	for _, b := range fn.blocks {
		if len(b.succs) == 0 {
			rs[n] = append(rs[n], b.index)
		}
		for _, s := range b.succs {
			rs[s] = append(rs[s], b.index)
		}
	}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var order []int
	seen := make([]bool, n+1)
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, s := range rs[i] {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, i)
	}
	dfs(n)
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for ch := true; ch; {
		ch = false
		for k := len(order) - 2; k >= 0; k-- {
			x := order[k]
			b := fn.blocks[x]
			nd := -1
			upd := func(p int) {
				if num[p] < 0 || idom[p] < 0 {
					return
				}
				if nd < 0 {
					nd = p
					return
				}
				q := nd
				for p != q {
					for num[p] < num[q] {
						p = idom[p]
					}
					for num[q] < num[p] {
						q = idom[q]
					}
				}
				nd = p
			}
			if len(b.succs) == 0 {
				upd(n)
			}
			for _, s := range b.succs {
				upd(s)
			}
			if nd >= 0 && idom[x] != nd {
				idom[x] = nd
				ch = true
			}
		}
	}
	for i := range idom {
		if idom[i] < 0 {
			idom[i] = n
		}
	}
	return idom
}

func (m *Machine) trySpec(fr *frame, b *Blk, cond *Term) (next int, ok bool) {
	nf, d, defs := len(m.frames), m.depth, len(fr.defers)
	obl := m.fresh
	m.spec++
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				m.frames, m.depth, fr.defers = m.frames[:nf], d, fr.defers[:defs]
				fr.blk, fr.prev = b, b.index
				fr.pc = len(b.src) - 1
				m.fresh = obl
				next, ok = 0, false
				return
			}
			panic(r)
		}
	}()
	return m.runRegion(fr, b, cond), true
}

func (m *Machine) runRegion(fr *frame, b *Blk, cond *Term) int {
	reg := b.region
	tt := m.tt
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	add := func(f, t int, g *Term) {
		e := edge{f, t}
		if o, ok := eg[e]; ok {
			g = tt.Or(o, g)
		}
		eg[e] = g
	}
	add(b.index, b.succs[0], cond)
	add(b.index, b.succs[1], tt.Not(cond))
	type retv struct {
		g  *Term
		vs []V
		bk *Blk
	}
	var rets []retv
	for _, bi := range reg.order {
		x := fr.fn.blocks[bi]
		g := tt.False
		for _, p := range x.preds {
			if e, ok := eg[edge{p, bi}]; ok {
				g = tt.Or(g, e)
			}
		}
		if g == tt.False {
			continue
		}
		if x.nphi > 0 {
			vs := make([]V, x.nphi)
			for i := range x.phis {
				var gs []*Term
				var vals []V
				for k, p := range x.preds {
					if e, ok := eg[edge{p, bi}]; ok && e != tt.False {
						gs = append(gs, e)
						vals = append(vals, fr.get(x.phis[i].edges[k]))
					}
				}
				vs[i] = m.mergeV(&x.phis[i], gs, vals)
			}
			for i := range x.phis {
				fr.regs[x.phis[i].reg] = vs[i]
			}
		}
		fr.blk = x
		m.steps += int64(len(x.ins)) + 1
		for i, f := range x.ins {
			fr.pc = x.insPC[i]
			f(fr)
		}
		switch len(x.succs) {
		case 0:
			rv := retv{g: g, bk: x}
			for _, o := range x.retOps {
				rv.vs = append(rv.vs, fr.get(o))
			}
			rets = append(rets, rv)
		case 1:
			add(bi, x.succs[0], g)
		case 2:
			c := m.bterm(fr.get(x.cond))
			add(bi, x.succs[0], tt.And(g, c))
			add(bi, x.succs[1], tt.And(g, tt.Not(c)))
		}
	}
	if reg.join < 0 {
		if len(rets) == 0 {
			panic(specAbort{})
		}
		n := len(rets[0].vs)
		out := make([]V, n)
		for i := 0; i < n; i++ {
			var gs []*Term
			var vals []V
			for _, r := range rets {
				gs = append(gs, r.g)
				vals = append(vals, r.vs[i])
			}
			out[i] = m.mergeV(&rets[0].bk.retK[i], gs, vals)
		}
		switch n {
		case 0:
		case 1:
			fr.ret = out[0]
		default:
			fr.ret = V{p: &Tuple{out}}
		}
		return -1
	}
	j := fr.fn.blocks[reg.join]
	vs := make([]V, j.nphi)
	for i := range j.phis {
		var gs []*Term
		var vals []V
		for k, p := range j.preds {
			if e, ok := eg[edge{p, reg.join}]; ok && e != tt.False {
				gs = append(gs, e)
				vals = append(vals, fr.get(j.phis[i].edges[k]))
			}
		}
		vs[i] = m.mergeV(&j.phis[i], gs, vals)
	}
	for i := range j.phis {
		fr.regs[j.phis[i].reg] = vs[i]
	}
	fr.prev = -1
	return reg.join
}

func (m *Machine) mergeV(p *phiC, gs []*Term, vs []V) V {
	if len(vs) == 0 {
		panic(specAbort{})
	}
	same := true
	for _, v := range vs[1:] {
		if v.u != vs[0].u || !sameP(v.p, vs[0].p) {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	switch p.kind {
	case 'b':
		r := m.bterm(vs[len(vs)-1])
		for i := len(vs) - 2; i >= 0; i-- {
			r = m.tt.Ite(gs[i], m.bterm(vs[i]), r)
		}
		return boolV(r)
	case 'i':
		r := m.term(vs[len(vs)-1], p.k.w)
		for i := len(vs) - 2; i >= 0; i-- {
			r = m.tt.Ite(gs[i], m.term(vs[i], p.k.w), r)
		}
		return p.k.mkV(r)
	}
	panic(specAbort{})
}

func sameP(a, b any) (r bool) {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if s, ok := a.(string); ok {
		t, ok := b.(string)
		return ok && s == t
	}
	if t, ok := a.(*Tuple); ok {
		return t == b
	}
	return a == b
}
