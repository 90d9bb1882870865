package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}
var pureIntr = map[string]bool{}

func def(name string, f Intrinsic) { intrinsics[name] = f }
func defp(name string, f Intrinsic) {
	intrinsics[name] = f
	pureIntr[name] = true
}

func zeroIntr(m *Machine, fn *Fn, args []V) V {
	return zeroRet(fn.ssa.Signature.Results())(m)
}
func firstArg(m *Machine, fn *Fn, args []V) V { return args[0] }

// intrByPattern: intrinsics by package/function pattern
func intrByPattern(name string, f *ssa.Function) Intrinsic {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	}
	if f.Synthetic == "package initializer" {
		return nil
	}
	for _, p := range noopPkgs {
		if pk == p || strings.HasPrefix(pk, p+"/") {
			return zeroIntr
		}
	}
	return nil
}

var noopPkgs = []string{
	"github.com/cosmos/cosmos-sdk/telemetry",
	"github.com/hashicorp/go-metrics",
	"github.com/rs/zerolog",
	"log/slog",
	"log",
	"runtime/debug",
	"runtime/pprof",
	"github.com/prometheus/client_golang",
	"google.golang.org/grpc/grpclog",
	"github.com/ethereum/go-ethereum/log",
	"github.com/ethereum/go-ethereum/metrics",
	"go.opencensus.io",
	"google.golang.org/genproto",
}

// ---------- small helpers ----------

func (m *Machine) errVal(msg V) V {
	pk := m.pr.prog.ImportedPackage("errors")
	t := pk.Type("errorString").Object().Type()
	m.pr.mu.Lock()
	rt := canonRT(types.NewPointer(t))
	m.pr.mu.Unlock()
	a := m.newAgg(1)
	a.e[0] = msg
	return V{p: &Iface{rt, ptrV(a)}}
}

func (m *Machine) allConc(vs ...[]V) bool {
	for _, b := range vs {
		for _, x := range b {
			if x.p != nil {
				return false
			}
		}
	}
	return true
}

func mustBytes(b []V) []byte { r, _ := concBytes(b); return r }

// hashUF: uninterpreted function over a byte string, real value when concrete
func (m *Machine) hashUF(name string, data []V, width int, real func([]byte) []byte, injBits int32) []V {
	if c, ok := concBytes(data); ok {
		out := real(c)
		if m.once > 0 {
			m.onceHash = append(m.onceHash, onceEnt{name, append([]V{}, data...), append([]byte{}, out...), injBits})
		} else if m.inInit == 0 {
			m.noteHash(name, data, m.tt.BVb(int32(width*8), new(big.Int).SetBytes(out)), injBits)
		}
		r := make([]V, len(out))
		for i, b := range out {
			r[i].u = uint64(b)
		}
		return r
	}
	arg := m.bytesTerm(data)
	t := m.tt.UF(fmt.Sprintf("%s_%d", name, len(data)), int32(width*8), arg)
	m.noteHash(name, data, t, injBits)
	return m.termBytes(t)
}

type onceEnt struct {
	name string
	data []V
	out  []byte
	inj  int32
}

type hashEnt struct {
	data []V
	out  *Term
}

// noteHash adds the collision-freedom assumption between this application and earlier ones
func (m *Machine) noteHash(name string, data []V, out *Term, injBits int32) {
	if injBits == 0 || m.conc != nil {
		return
	}
	key := "hash:" + name
	tab, _ := m.sideTabs[key].([]hashEnt)
	for _, e := range tab {
		if e.out == out {
			return
		}
	}
	for _, e := range tab {
		if e.out.isC() && out.isC() || e.out.w != out.w {
			continue
		}
		lo := m.tt.Eq(m.tt.Extract(e.out, injBits-1, 0), m.tt.Extract(out, injBits-1, 0))
		same := m.eqBytes(e.data, data)
		ax := m.tt.Or(m.tt.Not(lo), same)
		if ax != m.tt.True {
			m.constrain(ax)
		}
		if e.out.isC() != out.isC() && same != m.tt.False {
			// the real value on known data (two applications of the function agree by congruence)
			m.constrain(m.tt.Or(m.tt.Not(same), m.tt.Eq(e.out, out)))
		}
	}
	m.sideTabs[key] = append(tab, hashEnt{append([]V{}, data...), out})
}

func (m *Machine) keccak(data []V) []V {
	return m.hashUF("keccak256", data, 32, func(b []byte) []byte { h := keccak256(b); return h[:] }, 160)
}

func (m *Machine) catSlices(sl V) []V { // [][]byte -> bytes
	var r []V
	for _, s := range m.sliceV(sl) {
		r = append(r, m.sliceV(s)...)
	}
	return r
}

func (m *Machine) fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	m.unsupported("field %s", name)
	return -1
}

// arrays of bytes
func (m *Machine) arrV(b []V) V { a := m.newAgg(len(b)); copy(a.e, b); return aggV(a) }

// bytes of a receiver that is a [N]byte value or pointer
func (m *Machine) arrBytes(v V) []V { return m.agg(v).e }

func (m *Machine) hexChars(b []V) []V {
	tab, _ := m.sideTabs["hexch"].(map[*Term]*Term)
	if tab == nil {
		tab = map[*Term]*Term{}
		m.sideTabs["hexch"] = tab
	}
	r := make([]V, 0, 2*len(b))
	nib := func(t *Term) V {
		z := m.tt.Zext(t, 8)
		c := m.tt.Ite(m.tt.Ult(z, m.tt.BVu(8, 10)), m.tt.Add(z, m.tt.BVu(8, '0')), m.tt.Add(z, m.tt.BVu(8, 'a'-10)))
		if c.isC() {
			return V{u: c.u}
		}
		tab[c] = t
		return V{p: c}
	}
	const hx = "0123456789abcdef"
	for _, x := range b {
		if x.p == nil {
			r = append(r, V{u: uint64(hx[x.u>>4&15])}, V{u: uint64(hx[x.u&15])})
			continue
		}
		t := m.term(x, 8)
		r = append(r, nib(m.tt.Extract(t, 7, 4)), nib(m.tt.Extract(t, 3, 0)))
	}
	return r
}

// hexNibble: char -> nibble; ok=false when not decodable without a case split
func (m *Machine) hexNibble(x V) (*Term, int) { // 1 ok, 0 invalid, 2 unknown
	if x.p == nil {
		c := byte(x.u)
		switch {
		case c >= '0' && c <= '9':
			return m.tt.BVu(4, uint64(c-'0')), 1
		case c >= 'a' && c <= 'f':
			return m.tt.BVu(4, uint64(c-'a'+10)), 1
		case c >= 'A' && c <= 'F':
			return m.tt.BVu(4, uint64(c-'A'+10)), 1
		}
		return nil, 0
	}
	if tab, ok := m.sideTabs["hexch"].(map[*Term]*Term); ok {
		if n, ok := tab[x.p.(*Term)]; ok {
			return n, 1
		}
	}
	t := m.term(x, 8)
	tt := m.tt
	in := func(lo, hi byte) *Term {
		return tt.And(tt.Ule(tt.BVu(8, uint64(lo)), t), tt.Ule(t, tt.BVu(8, uint64(hi))))
	}
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	if !m.decide(tt.Or(d, l, u)) {
		return nil, 0
	}
	v := tt.Ite(d, tt.BSub(t, tt.BVu(8, '0')), tt.Ite(l, tt.BSub(t, tt.BVu(8, 'a'-10)), tt.BSub(t, tt.BVu(8, 'A'-10))))
	return tt.Extract(v, 3, 0), 1
}

// hexDecode decodes an even number of hex chars; returns bytes, count decoded ok, first invalid index (-1)
func (m *Machine) hexDecode(s []V) ([]V, int) {
	var r []V
	for i := 0; i+1 < len(s); i += 2 {
		a, ok := m.hexNibble(s[i])
		if ok == 0 {
			return r, i
		}
		b, ok := m.hexNibble(s[i+1])
		if ok == 0 {
			return r, i + 1
		}
		r = append(r, ik{8, false}.mkV(m.tt.Concat(a, b)))
	}
	return r, -1
}

func (m *Machine) checksumHex(addr []V) []V {
	if c, ok := concBytes(addr); ok {
		s := checksumAddr(c)
		m.noteChecksum(addr, c, nil)
		return m.strBytes(sV(s))
	}
	low := m.hexChars(addr)
	arg := m.bytesTerm(addr)
	bitsT := m.tt.UF("eip55case", 40, arg)
	m.noteChecksum(addr, nil, bitsT)
	tab := m.sideTabs["hexch"].(map[*Term]*Term)
	r := []V{{u: '0'}, {u: 'x'}}
	for i, c := range low {
		if c.p == nil {
			// concrete nibble of a symbolic address: case still depends on the hash
			if c.u >= 'a' {
				n := m.tt.BVu(4, c.u-'a'+10)
				up := m.tt.Eq(m.tt.Extract(bitsT, int32(i), int32(i)), m.tt.BVu(1, 1))
				t := m.tt.Ite(up, m.tt.BVu(8, c.u-32), m.tt.BVu(8, c.u))
				tab[t] = n
				r = append(r, V{p: t})
				continue
			}
			r = append(r, c)
			continue
		}
		lt := c.p.(*Term)
		n := tab[lt]
		up := m.tt.And(m.tt.Ule(m.tt.BVu(4, 10), n), m.tt.Eq(m.tt.Extract(bitsT, int32(i), int32(i)), m.tt.BVu(1, 1)))
		t := m.tt.Ite(up, m.tt.BSub(lt, m.tt.BVu(8, 32)), lt)
		tab[t] = n
		r = append(r, V{p: t})
	}
	return r
}

type cksEnt struct {
	data []V
	real []byte
	bits *Term
}

// noteChecksum: a symbolic address that equals a known one has its checksum.
func (m *Machine) noteChecksum(data []V, real []byte, bits *Term) {
	if m.conc != nil {
		return
	}
	tab, _ := m.sideTabs["cks"].([]cksEnt)
	for _, e := range tab {
		if e.bits == bits && (bits != nil || string(e.real) == string(real)) {
			return
		}
	}
	n := cksEnt{append([]V{}, data...), real, bits}
	for _, e := range tab {
		c, y := e, n
		if c.bits != nil {
			c, y = y, c
		}
		if c.bits != nil || y.bits == nil {
			continue
		}
		same := m.eqBytes(c.data, y.data)
		if same == m.tt.False {
			continue
		}
		h := keccak256([]byte(fmt.Sprintf("%x", c.real)))
		all := m.tt.True
		for i := 0; i < 40; i++ {
			hb := h[i/2]
			if i%2 == 0 {
				hb >>= 4
			}
			all = m.tt.And(all, m.tt.Eq(m.tt.Extract(y.bits, int32(i), int32(i)), m.tt.BVu(1, uint64(hb>>3&1))))
		}
		m.constrain(m.tt.Or(m.tt.Not(same), all))
	}
	m.sideTabs["cks"] = append(tab, n)
}

func checksumAddr(b []byte) string {
	hx := []byte(fmt.Sprintf("%x", b))
	h := keccak256(hx)
	for i := range hx {
		hb := h[i/2]
		if i%2 == 0 {
			hb >>= 4
		} else {
			hb &= 15
		}
		if hx[i] > '9' && hb > 7 {
			hx[i] -= 32
		}
	}
	return "0x" + string(hx)
}

func (m *Machine) lowerByte(x V) V {
	if x.p == nil {
		if x.u >= 'A' && x.u <= 'Z' {
			return V{u: x.u + 32}
		}
		return x
	}
	if tab, ok := m.sideTabs["hexch"].(map[*Term]*Term); ok {
		if n, ok := tab[x.p.(*Term)]; ok {
			z := m.tt.Zext(n, 8)
			c := m.tt.Ite(m.tt.Ult(z, m.tt.BVu(8, 10)), m.tt.Add(z, m.tt.BVu(8, '0')), m.tt.Add(z, m.tt.BVu(8, 'a'-10)))
			if c.isC() {
				return V{u: c.u}
			}
			tab[c] = n
			return V{p: c}
		}
	}
	t := m.term(x, 8)
	up := m.tt.And(m.tt.Ule(m.tt.BVu(8, 'A'), t), m.tt.Ule(t, m.tt.BVu(8, 'Z')))
	return ik{8, false}.mkV(m.tt.Ite(up, m.tt.Add(t, m.tt.BVu(8, 32)), t))
}

func init() {
	u64 := ik{64, false}
	i64 := ik{64, true}
	u8 := ik{8, false}

	// ---- bytes / strings primitives ----
	eqB := func(m *Machine, fn *Fn, a []V) V {
		return boolV(m.eqBytes(m.sliceV(a[0]), m.sliceV(a[1])))
	}
	defp("bytes.Equal", eqB)
	defp("crypto/subtle.ConstantTimeCompare", func(m *Machine, fn *Fn, a []V) V {
		e := m.eqBytes(m.sliceV(a[0]), m.sliceV(a[1]))
		return i64.mkV(m.tt.Ite(e, m.tt.BVu(64, 1), m.tt.BVu(64, 0)))
	})
	cmp := func(get func(m *Machine, v V) []V) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			lt, eq := m.cmpBytes(get(m, a[0]), get(m, a[1]))
			return i64.mkV(m.tt.Ite(lt, m.tt.BVu(64, ^uint64(0)), m.tt.Ite(eq, m.tt.BVu(64, 0), m.tt.BVu(64, 1))))
		}
	}
	sl := func(m *Machine, v V) []V { return m.sliceV(v) }
	st := func(m *Machine, v V) []V { return m.strBytes(v) }
	defp("bytes.Compare", cmp(sl))
	defp("internal/bytealg.Compare", cmp(sl))
	defp("strings.Compare", cmp(st))
	defp("internal/bytealg.CompareString", cmp(st))
	defp("cmp.Compare[string]", cmp(st))
	indexByte := func(get func(m *Machine, v V) []V) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			b := get(m, a[0])
			for i, x := range b {
				if x.p == nil && a[1].p == nil {
					if x.u == a[1].u {
						return iV(i)
					}
					continue
				}
				if m.decide(m.tt.Eq(m.term(x, 8), m.term(a[1], 8))) {
					return iV(i)
				}
			}
			return iV(-1)
		}
	}
	def("internal/bytealg.IndexByte", indexByte(sl))
	def("internal/bytealg.IndexByteString", indexByte(st))
	def("strings.IndexByte", indexByte(st))
	def("bytes.IndexByte", indexByte(sl))
	lastIndexByte := func(get func(m *Machine, v V) []V) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			b := get(m, a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if m.decide(m.tt.Eq(m.term(b[i], 8), m.term(a[1], 8))) {
					return iV(i)
				}
			}
			return iV(-1)
		}
	}
	def("strings.LastIndexByte", lastIndexByte(st))
	def("bytes.LastIndexByte", lastIndexByte(sl))
	def("internal/bytealg.LastIndexByteString", lastIndexByte(st))
	def("internal/bytealg.LastIndexByte", lastIndexByte(sl))
	count := func(get func(m *Machine, v V) []V) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			n := 0
			for _, x := range get(m, a[0]) {
				if m.decide(m.tt.Eq(m.term(x, 8), m.term(a[1], 8))) {
					n++
				}
			}
			return iV(n)
		}
	}
	def("internal/bytealg.Count", count(sl))
	def("internal/bytealg.CountString", count(st))
	index := func(get func(m *Machine, v V) []V) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			s, sub := get(m, a[0]), get(m, a[1])
			for i := 0; i+len(sub) <= len(s); i++ {
				if m.decide(m.eqBytes(s[i:i+len(sub)], sub)) {
					return iV(i)
				}
			}
			return iV(-1)
		}
	}
	def("strings.Index", index(st))
	def("bytes.Index", index(sl))
	def("internal/bytealg.IndexString", index(st))
	def("internal/bytealg.Index", index(sl))
	pref := func(get func(m *Machine, v V) []V, suf bool) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V {
			s, p := get(m, a[0]), get(m, a[1])
			if len(p) > len(s) {
				return bV(false)
			}
			if suf {
				return boolV(m.eqBytes(s[len(s)-len(p):], p))
			}
			return boolV(m.eqBytes(s[:len(p)], p))
		}
	}
	defp("strings.HasPrefix", pref(st, false))
	defp("bytes.HasPrefix", pref(sl, false))
	defp("strings.HasSuffix", pref(st, true))
	defp("bytes.HasSuffix", pref(sl, true))
	def("strings.ToLower", func(m *Machine, fn *Fn, a []V) V {
		if s, ok := a[0].p.(string); ok {
			return sV(strings.ToLower(s))
		}
		b := m.strBytes(a[0])
		r := make([]V, len(b))
		for i := range b {
			r[i] = m.lowerByte(b[i])
		}
		return mkStr(r)
	})
	def("strings.ToUpper", func(m *Machine, fn *Fn, a []V) V { return sV(strings.ToUpper(m.concStr(a[0]))) })
	def("internal/stringslite.Clone", firstArg)
	def("strings.Clone", firstArg)
	def("strings.Repeat", func(m *Machine, fn *Fn, a []V) V {
		n := int(m.concretize(a[1], i64))
		if n < 0 {
			m.goPanicStr("strings: negative Repeat count")
		}
		b := m.strBytes(a[0])
		var r []V
		for i := 0; i < n; i++ {
			r = append(r, b...)
		}
		return mkStr(r)
	})
	def("internal/bytealg.MakeNoZero", func(m *Machine, fn *Fn, a []V) V {
		return m.mkSlice(make([]V, m.concretize(a[0], i64)))
	})
	def("strings.Join", func(m *Machine, fn *Fn, a []V) V {
		var r V
		for i, s := range m.sliceV(a[0]) {
			if i > 0 {
				r = m.concatStr(r, a[1])
			}
			r = m.concatStr(r, s)
		}
		return r
	})
	// strings.Builder: content in field buf (index 1)
	def("(*strings.Builder).copyCheck", zeroIntr)
	def("(*strings.Builder).grow", zeroIntr)
	def("(*strings.Builder).Grow", zeroIntr)
	def("(*strings.Builder).String", func(m *Machine, fn *Fn, a []V) V {
		v := m.agg(a[0]).e[1]
		if o, ok := v.p.(*OpaqueStr); ok {
			return V{p: o}
		}
		return mkStr(append([]V{}, m.sliceV(v)...))
	})
	def("(*strings.Builder).Len", func(m *Machine, fn *Fn, a []V) V { return iV(len(m.sliceV(m.agg(a[0]).e[1]))) })
	def("(*strings.Builder).WriteString", func(m *Machine, fn *Fn, a []V) V {
		g := m.agg(a[0])
		_, o1 := g.e[1].p.(*OpaqueStr)
		if isOpaque(a[1]) || o1 {
			var cur V
			if o1 {
				cur = g.e[1]
			} else {
				cur = mkStr(append([]V{}, m.sliceV(g.e[1])...))
			}
			m.write(g, 1, m.concatStr(cur, a[1]))
			return tupV(iV(0), V{})
		}
		b := m.strBytes(a[1])
		m.write(g, 1, m.appendV(g.e[1], append([]V{}, b...), types.Typ[types.Uint8]))
		return tupV(iV(len(b)), V{})
	})
	def("cosmossdk.io/core/store.StringToBytes", firstArg)
	for _, p := range []string{"github.com/cosmos/cosmos-sdk/internal/conv", "cosmossdk.io/store/internal/conv", "cosmossdk.io/collections/internal/conv"} {
		def(p+".UnsafeStrToBytes", func(m *Machine, fn *Fn, a []V) V {
			return m.mkSlice(append([]V{}, m.strBytes(a[0])...))
		})
		def(p+".UnsafeBytesToStr", func(m *Machine, fn *Fn, a []V) V {
			return mkStr(append([]V{}, m.sliceV(a[0])...))
		})
	}
	// ---- math/bits ----
	defp("math/bits.Len64", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return iV(bits.Len64(a[0].u))
		}
		return i64.mkV(m.tt.BitLen(m.tt.BV2Nat(m.term(a[0], 64))))
	})
	defp("math/bits.Len", intrinsics["math/bits.Len64"])
	defp("math/bits.Len32", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return iV(bits.Len32(uint32(a[0].u)))
		}
		return i64.mkV(m.tt.BitLen(m.tt.BV2Nat(m.term(a[0], 32))))
	})
	defp("math/bits.TrailingZeros64", func(m *Machine, fn *Fn, a []V) V {
		return iV(bits.TrailingZeros64(m.concretize(a[0], u64)))
	})
	defp("math/bits.TrailingZeros", intrinsics["math/bits.TrailingZeros64"])
	defp("math/bits.LeadingZeros64", func(m *Machine, fn *Fn, a []V) V {
		return iV(bits.LeadingZeros64(m.concretize(a[0], u64)))
	})
	defp("math/bits.OnesCount64", func(m *Machine, fn *Fn, a []V) V {
		return iV(bits.OnesCount64(m.concretize(a[0], u64)))
	})
	defp("math/bits.Add64", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil && a[1].p == nil && a[2].p == nil {
			s, c := bits.Add64(a[0].u, a[1].u, a[2].u)
			return tupV(V{u: s}, V{u: c})
		}
		z := func(v V) *Term { return m.tt.Zext(m.term(v, 64), 65) }
		s := m.tt.Add(m.tt.Add(z(a[0]), z(a[1])), z(a[2]))
		return tupV(u64.mkV(m.tt.Extract(s, 63, 0)), u64.mkV(m.tt.Zext(m.tt.Extract(s, 64, 64), 64)))
	})
	defp("math/bits.Sub64", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil && a[1].p == nil && a[2].p == nil {
			s, c := bits.Sub64(a[0].u, a[1].u, a[2].u)
			return tupV(V{u: s}, V{u: c})
		}
		z := func(v V) *Term { return m.tt.Zext(m.term(v, 64), 65) }
		s := m.tt.BSub(m.tt.BSub(z(a[0]), z(a[1])), z(a[2]))
		return tupV(u64.mkV(m.tt.Extract(s, 63, 0)), u64.mkV(m.tt.Zext(m.tt.Extract(s, 64, 64), 64)))
	})
	defp("math/bits.Mul64", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil && a[1].p == nil {
			h, l := bits.Mul64(a[0].u, a[1].u)
			return tupV(V{u: h}, V{u: l})
		}
		z := func(v V) *Term { return m.tt.Zext(m.term(v, 64), 128) }
		s := m.tt.Mul(z(a[0]), z(a[1]))
		return tupV(u64.mkV(m.tt.Extract(s, 127, 64)), u64.mkV(m.tt.Extract(s, 63, 0)))
	})
	defp("math.Float64bits", firstArg)
	defp("math.Float64frombits", firstArg)
	mf := func(f func(float64) float64) Intrinsic {
		return func(m *Machine, fn *Fn, a []V) V { return fV(f(f64(a[0]))) }
	}
	defp("math.Floor", mf(math.Floor))
	defp("math.Ceil", mf(math.Ceil))
	defp("math.Sqrt", mf(math.Sqrt))
	defp("math.Log", mf(math.Log))
	defp("math.Exp", mf(math.Exp))
	defp("math.Abs", mf(math.Abs))
	defp("math.Trunc", mf(math.Trunc))
	defp("math.Pow", func(m *Machine, fn *Fn, a []V) V { return fV(math.Pow(f64(a[0]), f64(a[1]))) })

	// ---- hashing ----
	kecc := func(m *Machine, fn *Fn, a []V) V { return m.mkSlice(m.keccak(m.catSlices(a[0]))) }
	def("github.com/ethereum/go-ethereum/crypto.Keccak256", kecc)
	def("github.com/ethereum/go-ethereum/crypto.Keccak256Hash", func(m *Machine, fn *Fn, a []V) V {
		return m.arrV(m.keccak(m.catSlices(a[0])))
	})
	def("github.com/ethereum/go-ethereum/crypto.HashData", func(m *Machine, fn *Fn, a []V) V {
		return m.arrV(m.keccak(m.sliceV(a[1])))
	})
	sha := func(m *Machine, fn *Fn, a []V) V {
		return m.arrV(m.hashUF("sha256", m.sliceV(a[0]), 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }, 160))
	}
	def("crypto/sha256.Sum256", sha)
	def("github.com/cometbft/cometbft/crypto/tmhash.Sum", func(m *Machine, fn *Fn, a []V) V {
		return m.mkSlice(m.hashUF("sha256", m.sliceV(a[0]), 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }, 160))
	})
	// the streaming form runs from source, with the portable block function
	def("crypto/sha256.block", func(m *Machine, fn *Fn, a []V) V {
		g := m.pr.prog.ImportedPackage("crypto/sha256").Func("blockGeneric")
		m.pr.mu.Lock()
		f := m.pr.fnOf(g)
		m.pr.mu.Unlock()
		return m.call(f, a, nil, nil)
	})
	def("crypto/internal/boring.Unreachable", func(m *Machine, fn *Fn, a []V) V { return V{} })
	def("github.com/cosmos/cosmos-sdk/types/address.Hash", func(m *Machine, fn *Fn, a []V) V {
		h := func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
		th := m.hashUF("sha256", m.strBytes(a[0]), 32, h, 160)
		return m.mkSlice(m.hashUF("sha256", append(append([]V{}, th...), m.sliceV(a[1])...), 32, h, 160))
	})
	def("github.com/cometbft/cometbft/types.(Tx).Hash", nil)
	delete(intrinsics, "github.com/cometbft/cometbft/types.(Tx).Hash")
	def("github.com/ethereum/go-ethereum/crypto.CreateAddress", func(m *Machine, fn *Fn, a []V) V {
		ab := m.arrBytes(a[0])
		nb := m.termBytes(m.term(a[1], 64))
		data := append(append([]V{}, ab...), nb...)
		return m.arrV(m.hashUF("createaddr", data, 20, func(b []byte) []byte {
			n := new(big.Int).SetBytes(b[20:28]).Bytes()
			var enc []byte
			enc = append(enc, 0x94)
			enc = append(enc, b[:20]...)
			if len(n) == 1 && n[0] < 0x80 {
				enc = append(enc, n...)
			} else {
				enc = append(append(enc, 0x80+byte(len(n))), n...)
			}
			enc = append([]byte{0xc0 + byte(len(enc))}, enc...)
			h := keccak256(enc)
			return h[12:]
		}, 160))
	})
	// ---- hex ----
	def("encoding/hex.EncodeToString", func(m *Machine, fn *Fn, a []V) V { return mkStr(m.hexChars(m.sliceV(a[0]))) })
	def("encoding/hex.Encode", func(m *Machine, fn *Fn, a []V) V {
		h := m.hexChars(m.sliceV(a[1]))
		if len(h) > 0 {
			d := a[0].p.(*Slice)
			if d.len < len(h) {
				m.goPanicStr("runtime error: index out of range (hex.Encode)")
			}
			for i, x := range h {
				m.write(d.a, d.off+i, x)
			}
		}
		return iV(len(h))
	})
	hexErr := func(m *Machine, s []V, i int) V {
		if i >= 0 {
			return m.errVal(sV("encoding/hex: invalid byte"))
		}
		if len(s)%2 == 1 {
			return m.errVal(sV("encoding/hex: odd length hex string"))
		}
		return V{}
	}
	def("encoding/hex.DecodeString", func(m *Machine, fn *Fn, a []V) V {
		s := m.strBytes(a[0])
		r, bad := m.hexDecode(s)
		if bad < 0 && len(s)%2 == 1 {
			if _, ok := m.hexNibble(s[len(s)-1]); ok == 0 {
				bad = len(s) - 1
			}
		}
		return tupV(m.mkSlice(r), hexErr(m, s, bad))
	})
	def("encoding/hex.Decode", func(m *Machine, fn *Fn, a []V) V {
		s := m.sliceV(a[1])
		r, bad := m.hexDecode(s)
		if len(r) > 0 {
			d := a[0].p.(*Slice)
			if d.len < len(r) {
				m.goPanicStr("runtime error: index out of range (hex.Decode)")
			}
			for i, x := range r {
				m.write(d.a, d.off+i, x)
			}
		}
		return tupV(iV(len(r)), hexErr(m, s, bad))
	})
	def("(*github.com/ethereum/go-ethereum/common.Address).checksumHex", func(m *Machine, fn *Fn, a []V) V {
		return m.mkSlice(m.checksumHex(m.agg(a[0]).e))
	})
	// isHexCharacter without forking when the provenance is known
	def("github.com/ethereum/go-ethereum/common.isHexCharacter", func(m *Machine, fn *Fn, a []V) V {
		_, ok := m.hexNibble(a[0])
		return bV(ok == 1)
	})
	_ = u8
}

var _ ssa.Instruction
