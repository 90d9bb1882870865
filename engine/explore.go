package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	MaxSteps      int64
	MaxDecisions  int
	MaxConcretize int
	MaxPaths      int
	Time          time.Duration
	PathTime      time.Duration
	Workers       int
	Thorough      bool
	MapOrder      bool
	DecOpaque     bool
	FmtInts       bool
	SolverTime    time.Duration
	FallbackTime  time.Duration
	Samples       int
	AfterViol     time.Duration // how long to go on after a counterexample
	Verbose       bool
}

type Violation struct {
	Label  string            `json:"label"`
	At     string            `json:"at"`
	Inputs map[string]string `json:"inputs"`
	Panic  bool              `json:"panic"`
}

type Sample struct {
	Inputs map[string]string
	Obs    []string
}

type Explorer struct {
	cfg  Config
	pr   *Prog
	fn   *Fn
	name string

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []work
	active   int
	stop     bool
	start    time.Time
	deadline time.Time

	Paths       int
	Ends        map[string]int
	Reasons     map[string]int
	Violations  []Violation
	violCount   map[string]int
	Obligations map[string]int
	Reached     map[string]int
	Unknowns    map[string]int
	Encoded     map[string]int // name -> instruction count
	IntrUsed    map[string]bool
	InitFails   map[string]string
	forkAt      map[string]int
	Samples     []Sample
	queries     [3]int64
	solver      SolverStats
	maxDec      int
	Exhausted   bool
	TimedOut    bool
	Crash       string
}

func NewExplorer(pr *Prog, fn *Fn, name string, cfg Config) *Explorer {
	x := &Explorer{cfg: cfg, pr: pr, fn: fn, name: name, Ends: map[string]int{}, Reasons: map[string]int{}, violCount: map[string]int{}, Obligations: map[string]int{},
		Reached: map[string]int{}, Unknowns: map[string]int{}, Encoded: map[string]int{}, IntrUsed: map[string]bool{}, InitFails: map[string]string{}, forkAt: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) push(w work) {
	x.mu.Lock()
	x.queue = append(x.queue, w)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) noteQuery(r Res) { atomic.AddInt64(&x.queries[r], 1) }
func (x *Explorer) noteFork(m *Machine) {
	if x.cfg.Verbose {
		f := m.top()
		if f != nil {
			k := f.loc()
			x.mu.Lock()
			x.forkAt[k]++
			x.mu.Unlock()
		}
	}
}
func (x *Explorer) noteUnknown(what, at string) {
	x.mu.Lock()
	x.Unknowns[what+" @ "+first(at)]++
	x.mu.Unlock()
}
func first(s string) string {
	if i := strings.Index(s, " < "); i >= 0 {
		return s[:i]
	}
	return s
}
func (x *Explorer) noteEncoded(fn *Fn) {
	x.mu.Lock()
	x.Encoded[fn.name] = fn.ninstr
	x.mu.Unlock()
}
func (x *Explorer) noteIntr(fn *Fn) {
	if fn.notedI.Load() {
		return
	}
	fn.notedI.Store(true)
	x.mu.Lock()
	x.IntrUsed[fn.name] = true
	x.mu.Unlock()
}
func (x *Explorer) noteReach(l string) {
	x.mu.Lock()
	x.Reached[l]++
	x.mu.Unlock()
}
func (x *Explorer) noteObligation(m *Machine, l string) {
	x.mu.Lock()
	x.Obligations[l]++
	x.mu.Unlock()
}
func (x *Explorer) noteInitFail(what, msg string) {
	x.mu.Lock()
	if len(msg) > 300 {
		msg = msg[:300]
	}
	x.InitFails[what] = msg
	x.mu.Unlock()
}

const maxViolPerLabel = 4

func (x *Explorer) violation(m *Machine, md *Model, label, at string) {
	x.addViol(m, md, label, at, false)
}

func (x *Explorer) addViol(m *Machine, md *Model, label, at string, pan bool) {
	if md == nil {
		return
	}
	in := m.modelInputs(md)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.violCount[label]++
	if x.violCount[label] > maxViolPerLabel {
		return
	}
	x.Violations = append(x.Violations, Violation{Label: label, At: at, Inputs: in, Panic: pan})
	// a counterexample decides the check: look only a little longer for others
	if d := time.Now().Add(x.cfg.AfterViol); d.Before(x.deadline) {
		x.deadline = d
	}
}

func (x *Explorer) newMachine() *Machine {
	return &Machine{x: x, pr: x.pr, globals: map[*ssa.Global]V{}, initDone: map[*ssa.Package]bool{}, perm: map[string]any{},
		sv: NewSolver(x.cfg.SolverTime, x.cfg.FallbackTime)}
}

func (x *Explorer) Run() {
	x.start = time.Now()
	x.deadline = x.start.Add(x.cfg.Time)
	x.queue = []work{{}}
	var wg sync.WaitGroup
	for i := 0; i < x.cfg.Workers; i++ {
		wg.Add(1)
		go func(wk int) {
			defer wg.Done()
			rnd := uint64(wk + 1)
			m := x.newMachine()
			defer m.sv.Close()
			for {
				x.mu.Lock()
				for len(x.queue) == 0 && x.active > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || len(x.queue) == 0 {
					x.mu.Unlock()
					x.cond.Broadcast()
					break
				}
				pick := len(x.queue) - 1
				if wk%2 == 1 { // half of the workers spread over the tree
					rnd = rnd*6364136223846793005 + 1442695040888963407
					pick = int(rnd>>33) % len(x.queue)
				}
				w := x.queue[pick]
				x.queue[pick] = x.queue[len(x.queue)-1]
				x.queue = x.queue[:len(x.queue)-1]
				x.active++
				x.mu.Unlock()
				end := x.runPath(m, w)
				x.mu.Lock()
				x.active--
				x.Paths++
				x.Ends[end.kind]++
				if end.kind != "done" && end.kind != "infeasible" && end.kind != "violated" {
					at := end.at
					if parts := strings.Split(at, " < "); len(parts) > 6 {
						at = strings.Join(parts[:6], " < ")
					}
					x.Reasons[end.kind+": "+end.msg+" @ "+at]++
				}
				if m.ndec > x.maxDec {
					x.maxDec = m.ndec
				}
				if time.Now().After(x.deadline) || x.cfg.MaxPaths > 0 && x.Paths >= x.cfg.MaxPaths {
					if len(x.queue) > 0 || end.kind == "budget" {
						x.TimedOut = true
					}
					x.stop = true
				}
				x.mu.Unlock()
				x.cond.Broadcast()
			}
			x.mu.Lock()
			s := m.sv.stats
			x.solver.Queries += s.Queries
			x.solver.Sat += s.Sat
			x.solver.Unsat += s.Unsat
			x.solver.Unknown += s.Unknown
			x.solver.Fallback += s.Fallback
			x.solver.Errors += s.Errors
			x.solver.Time += s.Time
			x.mu.Unlock()
		}(i)
	}
	wg.Wait()
	x.Exhausted = len(x.queue) == 0 && !x.TimedOut
}

func (x *Explorer) runPath(m *Machine, w work) (end pathEnd) {
	m.resetPath(w)
	m.obsV = nil
	m.deadline = time.Now().Add(x.cfg.PathTime)
	x.mu.Lock()
	if m.deadline.After(x.deadline) {
		m.deadline = x.deadline
	}
	x.mu.Unlock()
	defer func() {
		r := recover()
		if r != nil {
			switch p := r.(type) {
			case pathEnd:
				end = p
			case *goPanic:
				end = pathEnd{"panic", "", p.at}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								end = pe
								return
							}
							panic(r)
						}
					}()
					m.spec = 0
					label := "panic: " + m.panicDesc(p.v)
					end.msg = label
					m.model = nil
					if m.ensureModel() {
						x.addViol(m, m.model, label, p.at, true)
					} else {
						x.noteUnknown("panic path", p.at)
					}
				}()
			case specAbort:
				end = pathEnd{"unsupported", "stray speculation", m.where()}
			default:
				st := string(debug.Stack())
				x.mu.Lock()
				if x.Crash == "" {
					x.Crash = fmt.Sprintf("%v at %s\n%s", r, m.where(), st)
				}
				x.mu.Unlock()
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r), m.where()}
			}
		}
		m.rollback()
	}()
	m.call(x.fn, nil, nil, nil)
	for m.runQueued() {
	}
	end = pathEnd{kind: "done"}
	if x.cfg.Samples > 0 {
		x.mu.Lock()
		n := len(x.Samples)
		p := x.Paths
		x.mu.Unlock()
		if n < x.cfg.Samples && (n < x.cfg.Samples/2 || p%7 == 0) {
			if m.ensureModel() {
				// only sample when no uninterpreted function is involved in the path
				in := m.modelInputs(m.model)
				if obs, ok := m.renderObs(m.model); ok {
					x.mu.Lock()
					x.Samples = append(x.Samples, Sample{in, obs})
					x.mu.Unlock()
				}
			}
		}
	}
	return
}

func (x *Explorer) topForks(n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range x.forkAt {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
	var r []string
	for i, e := range l {
		if i >= n {
			break
		}
		r = append(r, fmt.Sprintf("%6d %s", e.v, e.k))
	}
	return r
}
