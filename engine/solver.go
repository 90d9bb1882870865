package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback, Errors int
	Time                                           time.Duration
}

type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	lines   chan string
	emitted map[int32]bool
	decls   map[string]bool
	script  strings.Builder // declarations + asserts of the current path (for fallback)
	vars    []*Term         // vars and UF apps emitted on this path
	path    bool
	timeout time.Duration
	fbTime  time.Duration
	stats   SolverStats
	dump    io.Writer
	dead    bool
}

func NewSolver(timeout, fb time.Duration) *Solver {
	bin := []string{"z3-new", "-in", "-smt2"}
	if e := os.Getenv("SYMGO_Z3"); e != "" {
		bin = strings.Fields(e)
	}
	s := &Solver{bin: bin, timeout: timeout, fbTime: fb}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	ch := make(chan string, 64)
	s.lines = ch
	go func() {
		r := bufio.NewReaderSize(out, 1<<16)
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout.Milliseconds())
	s.dead = false
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) BeginPath() {
	if s.cmd == nil {
		s.start()
	} else if s.path {
		s.raw("(pop 1)\n")
	}
	s.raw("(push 1)\n")
	s.path = true
	s.emitted = map[int32]bool{}
	s.decls = map[string]bool{}
	s.vars = nil
	s.script.Reset()
}

func (s *Solver) raw(x string) {
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) line(x string) {
	s.script.WriteString(x)
	s.raw(x)
}

func (s *Solver) emit(t *Term) {
	if t.isC() || s.emitted[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.emitted[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !a.isC() && !s.emitted[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.emit1(f.t)
		s.emitted[f.t.id] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit1(t *Term) {
	switch t.op {
	case OVar:
		if !s.decls[t.name] {
			s.decls[t.name] = true
			s.line("(declare-const |" + t.name + "| " + sortStr(t.k, t.w) + ")\n")
			s.vars = append(s.vars, t)
		}
		return
	case OUF:
		if !s.decls["f:"+t.name] {
			s.decls["f:"+t.name] = true
			var sb strings.Builder
			for _, a := range t.args {
				sb.WriteString(sortStr(a.k, a.w) + " ")
			}
			s.line("(declare-fun |" + t.name + "| (" + sb.String() + ") " + sortStr(t.k, t.w) + ")\n")
		}
		s.vars = append(s.vars, t)
	}
	s.line("(define-fun " + t.ref() + " () " + sortStr(t.k, t.w) + " " + t.body() + ")\n")
}

func (s *Solver) Assert(t *Term) {
	s.emit(t)
	s.line("(assert " + t.ref() + ")\n")
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	s.raw("(push 1)\n")
	s.raw(s.script.String())
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-time.After(d):
		return "", false
	}
}

func (s *Solver) readSexp(d time.Duration) (string, bool) {
	var sb strings.Builder
	depth := 0
	for {
		l, ok := s.readLine(d)
		if !ok {
			return "", false
		}
		sb.WriteString(l)
		sb.WriteByte('\n')
		inq := false
		for i := 0; i < len(l); i++ {
			switch l[i] {
			case '|':
				inq = !inq
			case '(':
				if !inq {
					depth++
				}
			case ')':
				if !inq {
					depth--
				}
			}
		}
		if depth <= 0 {
			return sb.String(), true
		}
	}
}

// Check decides path ∧ extra. With wantModel it returns a model on sat.
func (s *Solver) Check(extra *Term, wantModel bool) (Res, *Model) {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	if extra != nil {
		s.emit(extra)
	}
	s.raw("(push 1)\n")
	if extra != nil {
		s.raw("(assert " + extra.ref() + ")\n")
	}
	s.raw("(check-sat)\n")
	s.in.Flush()
	res := Unknown
	var mod *Model
	l, ok := s.readLine(s.timeout + 5*time.Second)
	if !ok {
		s.restart()
	} else {
		switch l {
		case "sat":
			res = Sat
			if wantModel {
				mod = s.getModel()
				if mod == nil {
					ok = false
				}
			}
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
		default:
			s.stats.Errors++
			if s.stats.Errors < 5 {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
			ok = false
		}
		if !ok {
			s.restart()
			if res != Sat {
				res = Unknown
			}
		} else {
			s.raw("(pop 1)\n")
		}
	}
	if res == Unknown && s.fbTime > 0 {
		s.stats.Fallback++
		res, mod = s.fallback(extra)
	}
	switch res {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return res, mod
}

func (s *Solver) getq() string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
		if v.op == OUF {
			for _, a := range v.args {
				sb.WriteString(a.ref())
				sb.WriteByte(' ')
			}
		}
	}
	sb.WriteString("))\n")
	return sb.String()
}

func (s *Solver) getModel() *Model {
	if len(s.vars) == 0 {
		return newModel()
	}
	s.raw(s.getq())
	s.in.Flush()
	x, ok := s.readSexp(s.timeout + 5*time.Second)
	if !ok {
		return nil
	}
	return s.parseModel(x)
}

func (s *Solver) parseModel(x string) *Model {
	m := newModel()
	vals := parsePairs(x)
	i := 0
	next := func() *big.Int {
		if i >= len(vals) {
			return nil
		}
		i++
		return vals[i-1]
	}
	for _, v := range s.vars {
		val := next()
		if val == nil {
			return nil
		}
		if v.op != OUF {
			m.vals[v.name] = val
		} else {
			var sb strings.Builder
			sb.WriteString(v.name)
			for range v.args {
				a := next()
				if a == nil {
					return nil
				}
				sb.WriteString(",")
				sb.WriteString(a.Text(62))
			}
			m.ufs[sb.String()] = val
		}
	}
	return m
}

// parsePairs parses ((name value) ...) and returns the values in order.
func parsePairs(x string) []*big.Int {
	p := 0
	var parse func() any
	skip := func() {
		for p < len(x) && (x[p] == ' ' || x[p] == '\n' || x[p] == '\t' || x[p] == '\r') {
			p++
		}
	}
	parse = func() any {
		skip()
		if p >= len(x) {
			return nil
		}
		if x[p] == '(' {
			p++
			var l []any
			for {
				skip()
				if p >= len(x) {
					return l
				}
				if x[p] == ')' {
					p++
					return l
				}
				l = append(l, parse())
			}
		}
		st := p
		if x[p] == '|' {
			p++
			for p < len(x) && x[p] != '|' {
				p++
			}
			p++
			return x[st:p]
		}
		for p < len(x) && !strings.ContainsRune(" \n\t\r()", rune(x[p])) {
			p++
		}
		return x[st:p]
	}
	top, ok := parse().([]any)
	if !ok {
		return nil
	}
	var r []*big.Int
	for _, e := range top {
		pr, ok := e.([]any)
		if !ok || len(pr) != 2 {
			return nil
		}
		v := sexpVal(pr[1])
		if v == nil {
			return nil
		}
		r = append(r, v)
	}
	return r
}

func sexpVal(e any) *big.Int {
	switch s := e.(type) {
	case string:
		switch {
		case s == "true":
			return big.NewInt(1)
		case s == "false":
			return new(big.Int)
		case strings.HasPrefix(s, "#x"):
			v, ok := new(big.Int).SetString(s[2:], 16)
			if ok {
				return v
			}
		case strings.HasPrefix(s, "#b"):
			v, ok := new(big.Int).SetString(s[2:], 2)
			if ok {
				return v
			}
		default:
			v, ok := new(big.Int).SetString(s, 10)
			if ok {
				return v
			}
		}
	case []any:
		if len(s) == 2 && s[0] == "-" {
			if v := sexpVal(s[1]); v != nil {
				return v.Neg(v)
			}
		}
		if len(s) == 3 && s[0] == "_" {
			if n, ok := s[1].(string); ok && strings.HasPrefix(n, "bv") {
				v, ok := new(big.Int).SetString(n[2:], 10)
				if ok {
					return v
				}
			}
		}
	}
	return nil
}

// fallback runs other solvers on the full script
func (s *Solver) fallback(extra *Term) (Res, *Model) {
	f, err := os.CreateTemp("", "symgo*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	f.WriteString(s.script.String())
	if extra != nil {
		f.WriteString("(assert " + extra.ref() + ")\n")
	}
	f.WriteString("(check-sat)\n")
	if len(s.vars) > 0 {
		f.WriteString(s.getq())
	}
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), s.fbTime)
	defer cancel()
	cmds := [][]string{
		{"z3", "-smt2", fmt.Sprintf("-T:%d", int(s.fbTime.Seconds())), f.Name()},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.fbTime.Milliseconds()), f.Name()},
		{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(s.fbTime.Seconds())), f.Name()},
	}
	type rr struct {
		r Res
		m *Model
	}
	ch := make(chan rr, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			out, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			o := string(out)
			nl := strings.IndexByte(o, '\n')
			if nl < 0 {
				ch <- rr{Unknown, nil}
				return
			}
			switch o[:nl] {
			case "unsat":
				ch <- rr{Unsat, nil}
			case "sat":
				var md *Model
				if len(s.vars) > 0 {
					md = s.parseModel(o[nl+1:])
				} else {
					md = newModel()
				}
				if md == nil {
					ch <- rr{Unknown, nil}
				} else {
					ch <- rr{Sat, md}
				}
			default:
				ch <- rr{Unknown, nil}
			}
		}()
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
