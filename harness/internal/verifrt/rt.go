// Package verifrt is the interface between verification harnesses and the
// symbolic engine. The engine intercepts every function below; compiled
// natively they read a concrete assignment (replay of a counterexample).
package verifrt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
)

type Case struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
}

type Result struct {
	Harness string   `json:"harness"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assume  bool     `json:"assume_failed"`
	Obs     []string `json:"obs"`
	Missing []string `json:"missing"`
}

var cur struct {
	c     Case
	names map[string]int
	r     *Result
}

type assumeFailed struct{}

func in(name string) string {
	n := cur.names[name]
	cur.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := cur.c.Inputs[name]
	if !ok {
		cur.r.Missing = append(cur.r.Missing, name)
		return "0"
	}
	return v
}

func bigIn(name string) *big.Int {
	s := in(name)
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	return v
}

// Bool returns an arbitrary boolean.
func Bool(name string) bool  { return bigIn(name).Sign() != 0 }
func U8(name string) uint8   { return uint8(bigIn(name).Uint64()) }
func U16(name string) uint16 { return uint16(bigIn(name).Uint64()) }
func U32(name string) uint32 { return uint32(bigIn(name).Uint64()) }
func U64(name string) uint64 { return bigIn(name).Uint64() }
func I64(name string) int64  { return int64(bigIn(name).Uint64()) }

// Range returns an arbitrary int in [lo,hi] (kept symbolic).
func Range(name string, lo, hi int64) int64 {
	v := int64(bigIn(name).Uint64())
	Assume(lo <= v && v <= hi)
	return v
}

// Choice returns an arbitrary value in [0,n); the engine explores each value.
func Choice(name string, n int) int {
	v, _ := strconv.Atoi(in(name))
	return v
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	s := in(name)
	if len(s) > 0 && s[0] == 'x' {
		s = s[1:]
	}
	b, _ := hex.DecodeString(s)
	r := make([]byte, n)
	copy(r, b)
	return r
}

// Big returns an arbitrary integer in [0, 2^bits).
func Big(name string, bits int) *big.Int { return bigIn(name) }

// BigRange returns an arbitrary integer in [-2^bits+1, 2^bits-1].
func BigSigned(name string, bits int) *big.Int { return bigIn(name) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert is an obligation: it must hold on every path.
func Assert(c bool, label string) {
	if !c {
		cur.r.Failed = append(cur.r.Failed, label)
	}
}

// Reach records that the label was reached (vacuity guard).
func Reach(label string) {}

// Observe records values compared between the engine and the native build.
func Observe(label string, vs ...any) {
	cur.r.Obs = append(cur.r.Obs, label+"="+fmt.Sprint(render(vs)...))
}

func render(vs []any) []any {
	var r []any
	for _, v := range vs {
		switch x := v.(type) {
		case []byte:
			r = append(r, "x"+hex.EncodeToString(x), " ")
		case string:
			r = append(r, strconv.Quote(x), " ")
		case *big.Int:
			r = append(r, x.String(), " ")
		case error:
			r = append(r, "error", " ")
		case nil:
			r = append(r, "nil", " ")
		default:
			r = append(r, fmt.Sprint(x), " ")
		}
	}
	return r
}

// Once returns f(): it uses no input, so the engine runs it one time and
// restores what it built at the end of each path.
func Once(name string, f func() any) any { return f() }

// Signed declares (to the symbolic execution) that sig is the signature of hash under pub.
func Signed(hash, sig, pub []byte) {}

// Provide stands v in (in the symbolic execution) for what the named constructor returns.
func Provide(name string, v any) {}

// Symbolic is true when run by the engine.
func Symbolic() bool { return false }

// Depth is a tier-dependent bound.
func Bound(name string, quick, thorough int) int {
	if os.Getenv("VERIF_BOUND_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// RunAll executes the cases read from the file named by VERIF_CASES with the given harnesses.
func RunAll(h map[string]func()) {
	data, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cs []Case
	if err := json.Unmarshal(data, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var out []Result
	for _, c := range cs {
		out = append(out, run1(c, h[c.Harness]))
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(os.Getenv("VERIF_RESULTS"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func run1(c Case, f func()) (r Result) {
	r = Result{Harness: c.Harness}
	if f == nil {
		r.Panic = "no such harness"
		return
	}
	cur.c, cur.names, cur.r = c, map[string]int{}, &r
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(assumeFailed); ok {
				r.Assume = true
				return
			}
			r.Panic = fmt.Sprint(p)
			if r.Panic == "" {
				r.Panic = "panic"
			}
		}
	}()
	f()
	return
}
