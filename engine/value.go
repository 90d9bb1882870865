package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a Go value of the interpreted program. Its meaning depends on the static type:
//
//	bool/int: p==nil -> concrete in u (sign/zero extended); p=*Term -> symbolic
//	float: bits of the float64 in u;  string: nil, string, *SymStr, *OpaqueStr
//	pointer: p=*Agg,u=index (or WHOLE for pointers to structs/arrays), *SymPtr
//	struct/array: p=*Agg,u=AGG;  slice: *Slice; interface: *Iface; func: *Closure; map: *MapObj; chan: *ChanObj
type V struct {
	u uint64
	p any
}

const (
	WHOLE = ^uint64(0)
	AGG   = ^uint64(1)
)

type Agg struct {
	e      []V
	shared bool
}

type SymPtr struct { // pointer to a scalar element at a symbolic index
	a   *Agg
	off int
	n   int
	idx *Term // BV64, known to be < n
	k   ik    // w==0: bool
}

type Slice struct {
	a             *Agg
	off, len, cap int
}

type SymStr struct{ b []V }

// OpaqueStr is a string whose content is not tracked (formatted from symbolic data).
type OpaqueStr struct {
	parts []any // string | V
	desc  string
}

type RT struct {
	id      int
	t       types.Type
	key     string
	methods map[*types.Func]*Fn
	named   string
}

type Iface struct {
	rt *RT
	v  V
}

type Closure struct {
	fn     *Fn
	free   []V
	native func(m *Machine, fr *frame, args []V) V
	name   string
}

type Tuple struct{ e []V }

type Poison struct{ why string }

type BigV struct { // immutable big.Int payload stored in the abs slot
	c *big.Int
	t *Term
}

type mapEnt struct {
	k, v V
	dead bool
}

type MapObj struct {
	kt     types.Type
	ents   []*mapEnt
	idx    map[string]int // concrete keys -> entry
	nsym   int            // live entries with symbolic key
	n      int
	shared bool
	saved  bool
}

type ChanObj struct {
	buf    []V
	cap    int
	closed bool
	et     types.Type
}

var rtMap typeutil.Map
var rtByID []*RT

func canonRT(t types.Type) *RT {
	if r := rtMap.At(t); r != nil {
		return r.(*RT)
	}
	r := &RT{id: len(rtByID) + 1, t: t, methods: map[*types.Func]*Fn{}}
	r.named = types.TypeString(t, nil)
	rtMap.Set(t, r)
	rtByID = append(rtByID, r)
	return r
}

type ik struct {
	w int32
	s bool
}

func intKindB(b *types.Basic) (ik, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return ik{64, true}, true
	case types.Int32, types.UntypedRune:
		return ik{32, true}, true
	case types.Int16:
		return ik{16, true}, true
	case types.Int8:
		return ik{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ik{64, false}, true
	case types.Uint32:
		return ik{32, false}, true
	case types.Uint16:
		return ik{16, false}, true
	case types.Uint8:
		return ik{8, false}, true
	}
	return ik{}, false
}

func intKind(t types.Type) (ik, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intKindB(b)
	}
	return ik{}, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (k ik) norm(u uint64) uint64 {
	switch k.w {
	case 64:
		return u
	case 32:
		if k.s {
			return uint64(int64(int32(u)))
		}
		return uint64(uint32(u))
	case 16:
		if k.s {
			return uint64(int64(int16(u)))
		}
		return uint64(uint16(u))
	default:
		if k.s {
			return uint64(int64(int8(u)))
		}
		return uint64(uint8(u))
	}
}

// mkV: term -> value, collapsing constants
func (k ik) mkV(t *Term) V {
	if t.isC() {
		return V{u: k.norm(t.u)}
	}
	return V{p: t}
}
func boolV(t *Term) V {
	if t.isC() {
		return V{u: t.u}
	}
	return V{p: t}
}
func bV(b bool) V {
	if b {
		return V{u: 1}
	}
	return V{}
}
func iV(i int) V        { return V{u: uint64(int64(i))} }
func sV(s string) V     { return V{p: s} }
func aggV(a *Agg) V     { return V{u: AGG, p: a} }
func ptrV(a *Agg) V     { return V{u: WHOLE, p: a} }
func tupV(xs ...V) V    { return V{p: &Tuple{xs}} }
func (v V) isSym() bool { _, ok := v.p.(*Term); return ok }

func (m *Machine) newAgg(n int) *Agg { return &Agg{e: make([]V, n), shared: m.inInit > 0} }

func (m *Machine) copyV(v V) V {
	if v.u == AGG && v.p != nil {
		if a, ok := v.p.(*Agg); ok {
			return aggV(m.copyAgg(a))
		}
	}
	return v
}

func (m *Machine) copyAgg(a *Agg) *Agg {
	r := m.newAgg(len(a.e))
	for i, x := range a.e {
		if x.u == AGG && x.p != nil {
			x = m.copyV(x)
		}
		r.e[i] = x
	}
	return r
}

func (m *Machine) copyInto(dst, src *Agg) {
	if dst == src {
		return
	}
	for i, x := range src.e {
		if x.u == AGG && x.p != nil {
			if sa, ok := x.p.(*Agg); ok {
				da, ok := dst.e[i].p.(*Agg)
				if !ok {
					m.write(dst, i, m.copyV(x))
				} else {
					m.copyInto(da, sa)
				}
				continue
			}
		}
		m.write(dst, i, x)
	}
}

type jent struct {
	a   *Agg
	i   int
	old V
}

func (m *Machine) write(a *Agg, i int, v V) {
	if a.shared && m.inInit == 0 {
		m.journal = append(m.journal, jent{a, i, a.e[i]})
	}
	a.e[i] = v
}

// zeroFn returns a generator of zero values of t
func zeroFn(t types.Type) func(m *Machine) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		var nested []int
		var fns []func(*Machine) V
		for i := 0; i < n; i++ {
			if isAgg(u.Field(i).Type()) {
				nested = append(nested, i)
				fns = append(fns, zeroFn(u.Field(i).Type()))
			}
		}
		return func(m *Machine) V {
			a := m.newAgg(n)
			for j, i := range nested {
				a.e[i] = fns[j](m)
			}
			return aggV(a)
		}
	case *types.Array:
		n := int(u.Len())
		if isAgg(u.Elem()) {
			f := zeroFn(u.Elem())
			return func(m *Machine) V {
				a := m.newAgg(n)
				for i := range a.e {
					a.e[i] = f(m)
				}
				return aggV(a)
			}
		}
		return func(m *Machine) V { return aggV(m.newAgg(n)) }
	case *types.Tuple:
		var fns []func(*Machine) V
		for i := 0; i < u.Len(); i++ {
			fns = append(fns, zeroFn(u.At(i).Type()))
		}
		return func(m *Machine) V {
			r := &Tuple{}
			for _, f := range fns {
				r.e = append(r.e, f(m))
			}
			return V{p: r}
		}
	}
	return func(*Machine) V { return V{} }
}

// ---------- strings / bytes ----------

func (m *Machine) strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	m.unsupported("length of %T", v.p)
	return 0
}

func (m *Machine) strBytes(v V) []V {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			r[i].u = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	case *OpaqueStr:
		m.unsupported("content of opaque string %s", s.desc)
	case *Poison:
		m.unsupported("poison: %s", s.why)
	}
	m.unsupported("strBytes of %T", v.p)
	return nil
}

func mkStr(b []V) V {
	for _, x := range b {
		if x.p != nil {
			return V{p: &SymStr{b}}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.u)
	}
	return V{p: string(r)}
}

func (m *Machine) concStr(v V) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		r := make([]byte, len(s.b))
		for i, x := range s.b {
			r[i] = byte(m.concretize(x, ik{8, false}))
		}
		return string(r)
	}
	m.strBytes(v)
	return ""
}

func (m *Machine) concatStr(a, b V) V {
	as, ao := a.p.(string)
	bs, bo := b.p.(string)
	if ao && bo {
		return V{p: as + bs}
	}
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if isOpaque(a) || isOpaque(b) {
		return V{p: &OpaqueStr{parts: []any{a, b}, desc: m.desc(a) + m.desc(b)}}
	}
	x, y := m.strBytes(a), m.strBytes(b)
	r := make([]V, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func isOpaque(v V) bool { _, ok := v.p.(*OpaqueStr); return ok }

func (m *Machine) desc(v V) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *OpaqueStr:
		return s.desc
	case *SymStr:
		var sb strings.Builder
		for _, x := range s.b {
			if x.p != nil {
				sb.WriteByte('?')
			} else {
				sb.WriteByte(byte(x.u))
			}
		}
		return sb.String()
	case *Iface:
		return s.rt.named + ":" + m.desc(s.v)
	case *Term:
		return "?"
	}
	return fmt.Sprintf("<%T>", v.p)
}

func (m *Machine) sliceV(v V) []V { // elements view
	if v.p == nil {
		return nil
	}
	s, ok := v.p.(*Slice)
	if !ok {
		m.bad(v, "slice")
	}
	return s.a.e[s.off : s.off+s.len]
}

func (m *Machine) mkSlice(e []V) V {
	a := &Agg{e: e, shared: m.inInit > 0}
	return V{p: &Slice{a, 0, len(e), len(e)}}
}

func (m *Machine) bytesV(b []byte) V {
	e := make([]V, len(b))
	for i, x := range b {
		e[i].u = uint64(x)
	}
	return m.mkSlice(e)
}

func concBytes(b []V) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		if x.p != nil {
			return nil, false
		}
		r[i] = byte(x.u)
	}
	return r, true
}

func (m *Machine) bad(v V, want string) {
	if p, ok := v.p.(*Poison); ok {
		m.unsupported("poison value: %s", p.why)
	}
	m.unsupported("expected %s, have %T", want, v.p)
}

// bytesTerm: big-endian concatenation (len>0)
func (m *Machine) bytesTerm(b []V) *Term {
	xs := make([]*Term, len(b))
	for i, x := range b {
		xs[i] = m.term(x, 8)
	}
	return m.tt.Concat(xs...)
}

func (m *Machine) termBytes(t *Term) []V {
	n := int(t.w) / 8
	r := make([]V, n)
	for i := 0; i < n; i++ {
		hi := t.w - int32(8*i) - 1
		r[i] = ik{8, false}.mkV(m.tt.Extract(t, hi, hi-7))
	}
	return r
}

func (m *Machine) term(v V, w int32) *Term {
	if v.p == nil {
		return m.tt.BVu(w, v.u)
	}
	t, ok := v.p.(*Term)
	if !ok {
		m.bad(v, "int")
	}
	if t.k != KBV || t.w != w {
		m.unsupported("term width %d want %d", t.w, w)
	}
	return t
}
func (m *Machine) bterm(v V) *Term {
	if v.p == nil {
		return m.tt.Bool(v.u != 0)
	}
	t, ok := v.p.(*Term)
	if !ok || t.k != KBool {
		m.bad(v, "bool")
	}
	return t
}

func (m *Machine) eqBytes(a, b []V) *Term {
	if len(a) != len(b) {
		return m.tt.False
	}
	if len(a) == 0 {
		return m.tt.True
	}
	// fast concrete mismatch
	allc := true
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].u != b[i].u {
				return m.tt.False
			}
		} else {
			allc = false
		}
	}
	if allc {
		return m.tt.True
	}
	return m.tt.Eq(m.bytesTerm(a), m.bytesTerm(b))
}

// cmpBytes returns lt, eq
func (m *Machine) cmpBytes(a, b []V) (*Term, *Term) {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	lt, eq := m.tt.False, m.tt.True
	if n > 0 {
		// skip concrete equal prefix, stop at concrete difference
		i := 0
		for i < n && a[i].p == nil && b[i].p == nil && a[i].u == b[i].u {
			i++
		}
		if i < n {
			if a[i].p == nil && b[i].p == nil {
				return m.tt.Bool(a[i].u < b[i].u), m.tt.False
			}
			x, y := m.bytesTerm(a[i:n]), m.bytesTerm(b[i:n])
			lt, eq = m.tt.Ult(x, y), m.tt.Eq(x, y)
		}
	}
	if len(a) != len(b) {
		if len(a) < len(b) {
			lt = m.tt.Or(lt, eq)
		}
		eq = m.tt.False
	}
	return lt, eq
}

// ---------- equality ----------

func (m *Machine) eq(t types.Type, a, b V) *Term {
	if pa, ok := a.p.(*Poison); ok {
		m.unsupported("poison value: %s", pa.why)
	}
	if pb, ok := b.p.(*Poison); ok {
		m.unsupported("poison value: %s", pb.why)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			as, ao := a.p.(string)
			bs, bo := b.p.(string)
			if (ao || a.p == nil) && (bo || b.p == nil) {
				return m.tt.Bool(as == bs)
			}
			if isOpaque(a) || isOpaque(b) {
				if a.p == b.p {
					return m.tt.True
				}
				if a.p == nil && opaqueNonEmpty(b) || b.p == nil && opaqueNonEmpty(a) {
					return m.tt.False
				}
				if as, ok := a.p.(string); ok && as == "" && opaqueNonEmpty(b) {
					return m.tt.False
				}
				if bs, ok := b.p.(string); ok && bs == "" && opaqueNonEmpty(a) {
					return m.tt.False
				}
				m.unsupported("comparison of opaque string %s / %s", m.desc(a), m.desc(b))
			}
			return m.eqBytes(m.strBytes(a), m.strBytes(b))
		}
		if u.Info()&types.IsBoolean != 0 {
			if a.p == nil && b.p == nil {
				return m.tt.Bool(a.u == b.u)
			}
			return m.tt.Eq(m.bterm(a), m.bterm(b))
		}
		if k, ok := intKindB(u); ok {
			if a.p == nil && b.p == nil {
				return m.tt.Bool(a.u == b.u)
			}
			return m.tt.Eq(m.term(a, k.w), m.term(b, k.w))
		}
		if u.Info()&types.IsFloat != 0 {
			return m.tt.Bool(f64(a) == f64(b))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return m.tt.Bool(a.p == b.p && a.u == b.u)
		}
	case *types.Pointer:
		return m.tt.Bool(ptrEq(a, b))
	case *types.Chan:
		return m.tt.Bool(a.p == b.p)
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return m.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.rt != y.rt {
			return m.tt.False
		}
		if !types.Comparable(x.rt.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + x.rt.named)
		}
		return m.eq(x.rt.t, x.v, y.v)
	case *types.Struct:
		x, y := m.agg(a), m.agg(b)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			c := m.eq(u.Field(i).Type(), x.e[i], y.e[i])
			if c == m.tt.False {
				return c
			}
			cs = append(cs, c)
		}
		return m.tt.And(cs...)
	case *types.Array:
		x, y := m.agg(a), m.agg(b)
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			return m.eqBytes(x.e, y.e)
		}
		var cs []*Term
		for i := range x.e {
			c := m.eq(u.Elem(), x.e[i], y.e[i])
			if c == m.tt.False {
				return c
			}
			cs = append(cs, c)
		}
		return m.tt.And(cs...)
	case *types.Slice, *types.Map, *types.Signature:
		// comparison with nil only
		if a.p == nil || b.p == nil {
			return m.tt.Bool(a.p == nil && b.p == nil)
		}
		return m.tt.Bool(a.p == b.p)
	}
	m.unsupported("eq on %s", t)
	return nil
}

func opaqueNonEmpty(v V) bool {
	o, ok := v.p.(*OpaqueStr)
	return ok && strings.Trim(o.desc, "?") != ""
}

func ptrEq(a, b V) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil
	}
	return a.p == b.p && a.u == b.u
}

func (m *Machine) agg(v V) *Agg {
	a, ok := v.p.(*Agg)
	if !ok {
		m.bad(v, "aggregate")
	}
	return a
}

// keyEnc encodes a concrete comparable value
func (m *Machine) keyEnc(t types.Type, v V, buf []byte) ([]byte, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.p.(type) {
			case nil:
				return append(buf, 0, 0, 0, 0), true
			case string:
				buf = binary.LittleEndian.AppendUint32(buf, uint32(len(s)))
				return append(buf, s...), true
			}
			if isOpaque(v) {
				m.unsupported("opaque string as map key: %s", m.desc(v))
			}
			return buf, false
		}
		if v.p != nil {
			if _, ok := v.p.(*Term); ok {
				return buf, false
			}
			return append(buf, fmt.Sprintf("%p.%d", v.p, v.u)...), true
		}
		return binary.LittleEndian.AppendUint64(buf, v.u), true
	case *types.Struct:
		a := m.agg(v)
		ok := true
		for i := range a.e {
			if buf, ok = m.keyEnc(u.Field(i).Type(), a.e[i], buf); !ok {
				return buf, false
			}
		}
		return buf, true
	case *types.Array:
		a := m.agg(v)
		ok := true
		for i := range a.e {
			if buf, ok = m.keyEnc(u.Elem(), a.e[i], buf); !ok {
				return buf, false
			}
		}
		return buf, true
	case *types.Interface:
		if v.p == nil {
			return append(buf, "nil"...), true
		}
		x := v.p.(*Iface)
		if !types.Comparable(x.rt.t) {
			m.goPanicStr("runtime error: hash of unhashable type " + x.rt.named)
		}
		buf = binary.LittleEndian.AppendUint32(buf, uint32(x.rt.id))
		return m.keyEnc(x.rt.t, x.v, buf)
	}
	if v.p == nil {
		return append(buf, "nilptr"...), true
	}
	return append(buf, fmt.Sprintf("%p.%d", v.p, v.u)...), true
}

// ---------- maps ----------

func (m *Machine) newMap(kt types.Type) *MapObj {
	return &MapObj{kt: kt, idx: map[string]int{}, shared: m.inInit > 0}
}

func (m *Machine) mapFind(o *MapObj, k V) (*mapEnt, string, bool) {
	enc, conc := m.keyEnc(o.kt, k, nil)
	if conc {
		if i, ok := o.idx[string(enc)]; ok {
			return o.ents[i], string(enc), true
		}
		if o.nsym == 0 {
			return nil, string(enc), true
		}
	}
	for _, e := range o.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := m.keyEnc(o.kt, e.k, nil); ec {
				continue
			}
		}
		if m.decide(m.eq(o.kt, k, e.k)) {
			return e, string(enc), conc
		}
	}
	return nil, string(enc), conc
}

func (m *Machine) mapSave(o *MapObj) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if o.shared && m.inInit == 0 && !o.saved {
		o.saved = true
		c := &MapObj{kt: o.kt, idx: map[string]int{}, nsym: o.nsym, n: o.n, shared: true}
		for k, v := range o.idx {
			c.idx[k] = v
		}
		for _, e := range o.ents {
			x := *e
			c.ents = append(c.ents, &x)
		}
		m.mapJournal = append(m.mapJournal, [2]*MapObj{o, c})
	}
}

func (m *Machine) mapSet(o *MapObj, k, v V) {
	m.mapSave(o)
	e, enc, conc := m.mapFind(o, k)
	if e != nil {
		e.v = v
		return
	}
	if conc {
		o.idx[enc] = len(o.ents)
	} else {
		o.nsym++
	}
	o.ents = append(o.ents, &mapEnt{k: k, v: v})
	o.n++
}

func (m *Machine) mapDelete(o *MapObj, k V) {
	m.mapSave(o)
	e, _, _ := m.mapFind(o, k)
	if e == nil {
		return
	}
	e.dead = true
	o.n--
	if enc, c := m.keyEnc(o.kt, e.k, nil); c {
		delete(o.idx, string(enc))
	} else {
		o.nsym--
	}
}
