package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"strings"
	"sync"
)

// reflect on engine values. A reflect.Type is an interface holding
// *reflect.rtype whose pointer is the engine's *RT; a reflect.Value is its
// struct with slot 0 = *RT, slot 1 = *RVal.

type RVal struct {
	v      V
	addr   V
	isAddr bool
	ro     bool
}

func (m *Machine) canon(t types.Type) *RT {
	m.pr.mu.Lock()
	defer m.pr.mu.Unlock()
	return canonRT(t)
}

func (m *Machine) rtypeV(rt *RT) V {
	if rt == nil {
		return V{}
	}
	if m.pr.rtypeRT == nil {
		pk := m.pr.prog.ImportedPackage("reflect")
		t := types.NewPointer(pk.Type("rtype").Object().Type())
		r := m.canon(t)
		m.pr.mu.Lock()
		m.pr.rtypeRT = r
		m.pr.mu.Unlock()
	}
	return V{p: &Iface{m.pr.rtypeRT, V{u: WHOLE, p: rt}}}
}

func (m *Machine) rtOf(v V) *RT { // receiver or interface
	switch x := v.p.(type) {
	case *RT:
		return x
	case *Iface:
		if r, ok := x.v.p.(*RT); ok {
			return r
		}
	case nil:
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m.bad(v, "reflect type")
	return nil
}

func (m *Machine) rvV(rt *RT, rv *RVal) V {
	a := m.newAgg(3)
	a.e[0] = V{u: WHOLE, p: rt}
	a.e[1] = V{p: rv}
	a.e[2] = V{u: 1}
	return aggV(a)
}

func (m *Machine) rvOf(v V) (*RT, *RVal) {
	a := m.agg(v)
	if a.e[0].p == nil {
		return nil, nil
	}
	rt, ok := a.e[0].p.(*RT)
	if !ok {
		m.bad(v, "reflect value")
	}
	return rt, a.e[1].p.(*RVal)
}

func (m *Machine) rvNeed(v V) (*RT, *RVal) {
	rt, rv := m.rvOf(v)
	if rt == nil {
		m.goPanicStr("reflect: call of method on zero Value")
	}
	return rt, rv
}

func (m *Machine) rvGet(rv *RVal) V {
	if rv.isAddr {
		return m.load(rv.addr)
	}
	return rv.v
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func typeName(t types.Type) string {
	switch n := t.(type) {
	case *types.Named:
		s := n.Obj().Name()
		if a := n.TypeArgs(); a.Len() > 0 {
			var xs []string
			for i := 0; i < a.Len(); i++ {
				xs = append(xs, types.TypeString(a.At(i), nil))
			}
			s += "[" + strings.Join(xs, ",") + "]"
		}
		return s
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Basic:
		if n.Kind() == types.Byte {
			return "uint8"
		}
		if n.Kind() == types.Rune {
			return "int32"
		}
		return n.Name()
	}
	return ""
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typePkg(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// elemRef: reference to element i of a backing Agg
func refTo(et types.Type, a *Agg, i int) V {
	if isAgg(et) {
		return ptrV(a.e[i].p.(*Agg))
	}
	return V{p: a, u: uint64(i)}
}

func (m *Machine) structFieldV(st *types.Struct, i int, sfT types.Type) V {
	a := zeroFn(sfT)(m).p.(*Agg)
	set := func(n string, v V) { a.e[m.fieldIdx(sfT, n)] = v }
	f := st.Field(i)
	set("Name", sV(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", sV(f.Pkg().Path()))
	}
	set("Type", m.rtypeV(m.canon(f.Type())))
	set("Tag", sV(st.Tag(i)))
	set("Anonymous", bV(f.Embedded()))
	set("Index", m.mkSlice([]V{iV(i)}))
	return aggV(a)
}

// rvSet stores x (of static type rt) into an addressable value
func (m *Machine) rvSet(rv *RVal, x V) {
	if !rv.isAddr {
		m.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
	}
	m.store(rv.addr, m.copyV(x))
}

// rvAssignTo converts (rt,v) to destination type dt (identical or interface)
func (m *Machine) rvAssign(rt *RT, v V, dt types.Type) V {
	if types.IsInterface(dt) {
		if types.IsInterface(rt.t) {
			return v
		}
		if !m.pr.implements(rt, dt.Underlying().(*types.Interface)) {
			m.goPanicStr("reflect.Set: value of type " + typeStr(rt.t) + " is not assignable to type " + typeStr(dt))
		}
		return V{p: &Iface{rt, m.copyV(v)}}
	}
	if !types.AssignableTo(rt.t, dt) {
		m.goPanicStr("reflect.Set: value of type " + typeStr(rt.t) + " is not assignable to type " + typeStr(dt))
	}
	return v
}

func (m *Machine) rvIface(rt *RT, rv *RVal) V {
	v := m.rvGet(rv)
	if types.IsInterface(rt.t) {
		return v
	}
	return V{p: &Iface{rt, m.copyV(v)}}
}

func (m *Machine) rvIndex(rt *RT, rv *RVal, i int) V {
	switch u := rt.t.Underlying().(type) {
	case *types.Slice:
		s := rv.get(m)
		sl, ok := s.p.(*Slice)
		if !ok || i < 0 || i >= sl.len {
			m.goPanicStr("reflect: slice index out of range")
		}
		return m.rvV(m.canon(u.Elem()), &RVal{isAddr: true, addr: refTo(u.Elem(), sl.a, sl.off+i)})
	case *types.Array:
		if i < 0 || int64(i) >= u.Len() {
			m.goPanicStr("reflect: array index out of range")
		}
		if rv.isAddr {
			a := m.agg(V{u: WHOLE, p: rv.addr.p})
			return m.rvV(m.canon(u.Elem()), &RVal{isAddr: true, addr: refTo(u.Elem(), a, i)})
		}
		return m.rvV(m.canon(u.Elem()), &RVal{v: m.agg(rv.v).e[i]})
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			b := m.strBytes(rv.get(m))
			return m.rvV(m.canon(types.Typ[types.Uint8]), &RVal{v: b[i]})
		}
	}
	m.unsupported("reflect Index on %s", rt.t)
	return V{}
}

func (rv *RVal) get(m *Machine) V { return m.rvGet(rv) }

func (m *Machine) rvField(rt *RT, rv *RVal, i int) V {
	st := rt.t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	ro := rv.ro || !st.Field(i).Exported()
	if rv.isAddr {
		a := rv.addr.p.(*Agg)
		return m.rvV(m.canon(ft), &RVal{isAddr: true, addr: refTo(ft, a, i), ro: ro})
	}
	return m.rvV(m.canon(ft), &RVal{v: m.agg(rv.v).e[i], ro: ro})
}

func (m *Machine) rvElem(rt *RT, rv *RVal) V {
	v := rv.get(m)
	switch u := rt.t.Underlying().(type) {
	case *types.Pointer:
		if v.p == nil {
			return zeroRV(m)
		}
		return m.rvV(m.canon(u.Elem()), &RVal{isAddr: true, addr: v, ro: rv.ro})
	case *types.Interface:
		if v.p == nil {
			return zeroRV(m)
		}
		x := v.p.(*Iface)
		return m.rvV(x.rt, &RVal{v: x.v, ro: rv.ro})
	}
	m.goPanicStr("reflect: call of reflect.Value.Elem on " + rkind(rt.t).String() + " Value")
	return V{}
}

func zeroRV(m *Machine) V { return aggV(m.newAgg(3)) }

func (m *Machine) rvIsZero(t types.Type, v V) bool {
	z := zeroFn(t)(m)
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature, *types.Pointer, *types.Interface, *types.Chan:
		return v.p == nil
	case *types.Array:
		for _, e := range m.agg(v).e {
			if !m.rvIsZero(u.Elem(), e) {
				return false
			}
		}
		return true
	case *types.Struct:
		for i, e := range m.agg(v).e {
			if !m.rvIsZero(u.Field(i).Type(), e) {
				return false
			}
		}
		return true
	}
	return m.decide(m.eq(t, v, z))
}

func init() {
	def("reflect.TypeOf", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return V{}
		}
		return m.rtypeV(a[0].p.(*Iface).rt)
	})
	def("reflect.TypeFor", func(m *Machine, fn *Fn, a []V) V {
		return m.rtypeV(m.canon(fn.ssa.TypeArgs()[0]))
	})
	def("reflect.ValueOf", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return zeroRV(m)
		}
		x := a[0].p.(*Iface)
		return m.rvV(x.rt, &RVal{v: x.v})
	})
	def("reflect.New", func(m *Machine, fn *Fn, a []V) V {
		rt := m.rtOf(a[0])
		p := m.newPtr(rt.t, zeroFn(rt.t)(m))
		return m.rvV(m.canon(types.NewPointer(rt.t)), &RVal{v: p})
	})
	def("reflect.Zero", func(m *Machine, fn *Fn, a []V) V {
		rt := m.rtOf(a[0])
		return m.rvV(rt, &RVal{v: zeroFn(rt.t)(m)})
	})
	def("reflect.MakeSlice", func(m *Machine, fn *Fn, a []V) V {
		rt := m.rtOf(a[0])
		et := typeElem(rt.t)
		z := zeroFn(et)
		n := int(int64(m.concretize(a[1], ik{64, true})))
		e := make([]V, n)
		for i := range e {
			e[i] = z(m)
		}
		return m.rvV(rt, &RVal{v: m.mkSlice(e)})
	})
	def("reflect.MakeMap", func(m *Machine, fn *Fn, a []V) V {
		rt := m.rtOf(a[0])
		return m.rvV(rt, &RVal{v: V{p: m.newMap(rt.t.Underlying().(*types.Map).Key())}})
	})
	def("reflect.SliceOf", func(m *Machine, fn *Fn, a []V) V {
		return m.rtypeV(m.canon(types.NewSlice(m.rtOf(a[0]).t)))
	})
	def("reflect.ArrayOf", func(m *Machine, fn *Fn, a []V) V {
		return m.rtypeV(m.canon(types.NewArray(m.rtOf(a[1]).t, int64(m.concretize(a[0], ik{64, true})))))
	})
	ptrTo := func(m *Machine, fn *Fn, a []V) V { return m.rtypeV(m.canon(types.NewPointer(m.rtOf(a[0]).t))) }
	def("reflect.PtrTo", ptrTo)
	def("reflect.PointerTo", ptrTo)
	def("reflect.StructOf", func(m *Machine, fn *Fn, a []V) V {
		var fs []*types.Var
		var tags []string
		sfT := fn.ssa.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		for _, f := range m.sliceV(a[0]) {
			g := m.agg(f)
			name := m.concStr(g.e[m.fieldIdx(sfT, "Name")])
			fs = append(fs, types.NewField(0, nil, name, m.rtOf(g.e[m.fieldIdx(sfT, "Type")]).t, false))
			tags = append(tags, m.concStr(g.e[m.fieldIdx(sfT, "Tag")]))
		}
		return m.rtypeV(m.canon(types.NewStruct(fs, tags)))
	})
	def("reflect.Indirect", func(m *Machine, fn *Fn, a []V) V {
		rt, rv := m.rvOf(a[0])
		if rt != nil && rkind(rt.t) == reflect.Ptr {
			return m.rvElem(rt, rv)
		}
		return a[0]
	})
	def("reflect.Copy", func(m *Machine, fn *Fn, a []V) V {
		dt, d := m.rvNeed(a[0])
		st, s := m.rvNeed(a[1])
		var de, se []V
		var da *Agg
		do := 0
		switch dt.t.Underlying().(type) {
		case *types.Array:
			da = d.addr.p.(*Agg)
			de = da.e
		default:
			v := d.get(m)
			if v.p == nil {
				return iV(0)
			}
			sl := v.p.(*Slice)
			da, do, de = sl.a, sl.off, m.sliceV(v)
		}
		switch u := st.t.Underlying().(type) {
		case *types.Array:
			se = m.agg(s.get(m)).e
		case *types.Basic:
			_ = u
			se = m.strBytes(s.get(m))
		default:
			se = m.sliceV(s.get(m))
		}
		n := len(de)
		if len(se) < n {
			n = len(se)
		}
		tmp := append([]V{}, se[:n]...)
		for i := 0; i < n; i++ {
			m.write(da, do+i, m.copyV(tmp[i]))
		}
		return iV(n)
	})
	def("reflect.Append", func(m *Machine, fn *Fn, a []V) V {
		rt, rv := m.rvNeed(a[0])
		cur := rv.get(m)
		var add []V
		et := typeElem(rt.t)
		for _, x := range m.sliceV(a[1]) {
			xt, xv := m.rvNeed(x)
			add = append(add, m.rvAssign(xt, xv.get(m), et))
		}
		return m.rvV(rt, &RVal{v: m.appendV(cur, add, et)})
	})

	// ---- reflect.Type methods ----
	tdef := func(n string, f func(m *Machine, fn *Fn, rt *RT, a []V) V) {
		def("(*reflect.rtype)."+n, func(m *Machine, fn *Fn, a []V) V { return f(m, fn, m.rtOf(a[0]), a) })
	}
	tdef("Kind", func(m *Machine, fn *Fn, rt *RT, a []V) V { return V{u: uint64(rkind(rt.t))} })
	tdef("Elem", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		e := typeElem(rt.t)
		if e == nil {
			m.goPanicStr("reflect: Elem of invalid type " + typeStr(rt.t))
		}
		return m.rtypeV(m.canon(e))
	})
	tdef("Key", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		return m.rtypeV(m.canon(rt.t.Underlying().(*types.Map).Key()))
	})
	tdef("Len", func(m *Machine, fn *Fn, rt *RT, a []V) V { return iV(int(rt.t.Underlying().(*types.Array).Len())) })
	tdef("Name", func(m *Machine, fn *Fn, rt *RT, a []V) V { return sV(typeName(rt.t)) })
	tdef("String", func(m *Machine, fn *Fn, rt *RT, a []V) V { return sV(typeStr(rt.t)) })
	tdef("PkgPath", func(m *Machine, fn *Fn, rt *RT, a []V) V { return sV(typePkg(rt.t)) })
	tdef("NumField", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		return iV(rt.t.Underlying().(*types.Struct).NumFields())
	})
	tdef("Bits", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		k, ok := intKind(rt.t)
		if !ok {
			m.unsupported("Bits")
		}
		return iV(int(k.w))
	})
	tdef("Size", func(m *Machine, fn *Fn, rt *RT, a []V) V { return iV(int(m.pr.sizes.Sizeof(rt.t))) })
	tdef("Field", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		st := rt.t.Underlying().(*types.Struct)
		return m.structFieldV(st, int(m.concretize(a[1], ik{64, true})), fn.ssa.Signature.Results().At(0).Type())
	})
	tdef("FieldByName", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		st := rt.t.Underlying().(*types.Struct)
		n := m.concStr(a[1])
		sfT := fn.ssa.Signature.Results().At(0).Type()
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return tupV(m.structFieldV(st, i, sfT), bV(true))
			}
		}
		return tupV(zeroFn(sfT)(m), bV(false))
	})
	tdef("NumMethod", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		if it, ok := rt.t.Underlying().(*types.Interface); ok {
			return iV(it.NumMethods())
		}
		m.pr.mu.Lock()
		defer m.pr.mu.Unlock()
		n := 0
		ms := m.pr.prog.MethodSets.MethodSet(rt.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return iV(n)
	})
	tdef("Comparable", func(m *Machine, fn *Fn, rt *RT, a []V) V { return bV(types.Comparable(rt.t)) })
	tdef("Implements", func(m *Machine, fn *Fn, rt *RT, a []V) V {
		return bV(m.pr.implements(rt, m.rtOf(a[1]).t.Underlying().(*types.Interface)))
	})
	tdef("AssignableTo", func(m *Machine, fn *Fn, rt *RT, a []V) V { return bV(types.AssignableTo(rt.t, m.rtOf(a[1]).t)) })
	tdef("ConvertibleTo", func(m *Machine, fn *Fn, rt *RT, a []V) V { return bV(types.ConvertibleTo(rt.t, m.rtOf(a[1]).t)) })

	// ---- reflect.Value methods ----
	vdef := func(n string, f func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V) {
		def("(reflect.Value)."+n, func(m *Machine, fn *Fn, a []V) V {
			rt, rv := m.rvNeed(a[0])
			return f(m, fn, rt, rv, a)
		})
	}
	def("(reflect.Value).IsValid", func(m *Machine, fn *Fn, a []V) V {
		rt, _ := m.rvOf(a[0])
		return bV(rt != nil)
	})
	def("(reflect.Value).Kind", func(m *Machine, fn *Fn, a []V) V {
		rt, _ := m.rvOf(a[0])
		if rt == nil {
			return V{}
		}
		return V{u: uint64(rkind(rt.t))}
	})
	def("(reflect.Kind).String", func(m *Machine, fn *Fn, a []V) V { return sV(reflect.Kind(a[0].u).String()) })
	vdef("Type", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return m.rtypeV(rt) })
	vdef("Elem", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return m.rvElem(rt, rv) })
	vdef("Interface", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return m.rvIface(rt, rv) })
	num := func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		v := rv.get(m)
		k, ok := intKind(rt.t)
		if !ok {
			m.goPanicStr("reflect: call of reflect.Value.Int on " + rkind(rt.t).String() + " Value")
		}
		return m.convInt(v, k, ik{64, k.s})
	}
	vdef("Int", num)
	vdef("Uint", num)
	vdef("Bool", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return rv.get(m) })
	vdef("Float", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return rv.get(m) })
	vdef("String", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		if rkind(rt.t) != reflect.String {
			return sV("<" + typeStr(rt.t) + " Value>")
		}
		return rv.get(m)
	})
	vdef("Bytes", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		if rkind(rt.t) == reflect.Array {
			if !rv.isAddr {
				m.goPanicStr("reflect.Value.Bytes of unaddressable byte array")
			}
			g := rv.addr.p.(*Agg)
			return V{p: &Slice{g, 0, len(g.e), len(g.e)}}
		}
		return rv.get(m)
	})
	vdef("Len", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		switch u := rt.t.Underlying().(type) {
		case *types.Array:
			return iV(int(u.Len()))
		case *types.Slice:
			return iV(len(m.sliceV(rv.get(m))))
		case *types.Map:
			if o, ok := rv.get(m).p.(*MapObj); ok {
				return iV(o.n)
			}
			return iV(0)
		case *types.Basic:
			return iV(m.strLen(rv.get(m)))
		}
		m.goPanicStr("reflect: call of reflect.Value.Len on " + rkind(rt.t).String() + " Value")
		return V{}
	})
	vdef("Cap", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		if s, ok := rv.get(m).p.(*Slice); ok {
			return iV(s.cap)
		}
		return iV(0)
	})
	vdef("Index", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		return m.rvIndex(rt, rv, int(int64(m.concretize(a[1], ik{64, true}))))
	})
	vdef("NumField", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		return iV(rt.t.Underlying().(*types.Struct).NumFields())
	})
	vdef("Field", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		return m.rvField(rt, rv, int(m.concretize(a[1], ik{64, true})))
	})
	vdef("FieldByName", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		st := rt.t.Underlying().(*types.Struct)
		n := m.concStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return m.rvField(rt, rv, i)
			}
		}
		return zeroRV(m)
	})
	vdef("Set", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		xt, xv := m.rvNeed(a[1])
		m.rvSet(rv, m.rvAssign(xt, xv.get(m), rt.t))
		return V{}
	})
	vdef("SetInt", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		k, _ := intKind(rt.t)
		m.rvSet(rv, m.convInt(a[1], ik{64, true}, k))
		return V{}
	})
	vdef("SetUint", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		k, _ := intKind(rt.t)
		m.rvSet(rv, m.convInt(a[1], ik{64, false}, k))
		return V{}
	})
	for _, n := range []string{"SetBool", "SetString", "SetBytes", "SetFloat"} {
		vdef(n, func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { m.rvSet(rv, a[1]); return V{} })
	}
	vdef("SetLen", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		n := int(int64(m.concretize(a[1], ik{64, true})))
		s := rv.get(m).p.(*Slice)
		m.rvSet(rv, V{p: &Slice{s.a, s.off, n, s.cap}})
		return V{}
	})
	vdef("IsNil", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return bV(rv.get(m).p == nil) })
	vdef("IsZero", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return bV(m.rvIsZero(rt.t, rv.get(m))) })
	vdef("CanSet", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return bV(rv.isAddr && !rv.ro) })
	vdef("CanAddr", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return bV(rv.isAddr) })
	vdef("CanInterface", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V { return bV(!rv.ro) })
	vdef("Addr", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		if !rv.isAddr {
			m.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return m.rvV(m.canon(types.NewPointer(rt.t)), &RVal{v: rv.addr})
	})
	vdef("Pointer", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		if rv.get(m).p == nil {
			return V{}
		}
		return V{u: 1}
	})
	vdef("Slice", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		i, j := int(m.concretize(a[1], ik{64, true})), int(m.concretize(a[2], ik{64, true}))
		switch u := rt.t.Underlying().(type) {
		case *types.Slice:
			v := rv.get(m)
			if v.p == nil {
				return a[0]
			}
			s := v.p.(*Slice)
			if i < 0 || j < i || j > s.cap {
				m.goPanicStr("reflect.Value.Slice: slice index out of bounds")
			}
			return m.rvV(rt, &RVal{v: V{p: &Slice{s.a, s.off + i, j - i, s.cap - i}}})
		case *types.Array:
			g := rv.addr.p.(*Agg)
			return m.rvV(m.canon(types.NewSlice(u.Elem())), &RVal{v: V{p: &Slice{g, i, j - i, len(g.e) - i}}})
		case *types.Basic:
			return m.rvV(rt, &RVal{v: mkStr(append([]V{}, m.strBytes(rv.get(m))[i:j]...))})
		}
		m.unsupported("reflect Slice")
		return V{}
	})
	vdef("Convert", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		dt := m.rtOf(a[1])
		v := rv.get(m)
		if types.IsInterface(dt.t) {
			return m.rvV(dt, &RVal{v: m.rvAssign(rt, v, dt.t)})
		}
		fk, f1 := intKind(rt.t)
		tk, f2 := intKind(dt.t)
		if f1 && f2 {
			return m.rvV(dt, &RVal{v: m.convInt(v, fk, tk)})
		}
		if types.Identical(rt.t.Underlying(), dt.t.Underlying()) {
			return m.rvV(dt, &RVal{v: m.copyV(v)})
		}
		if isString(rt.t) && rkind(dt.t) == reflect.Slice {
			return m.rvV(dt, &RVal{v: m.mkSlice(append([]V{}, m.strBytes(v)...))})
		}
		if isString(dt.t) && rkind(rt.t) == reflect.Slice {
			return m.rvV(dt, &RVal{v: mkStr(append([]V{}, m.sliceV(v)...))})
		}
		m.unsupported("reflect Convert %s -> %s", rt.t, dt.t)
		return V{}
	})
	vdef("MapIndex", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		o, _ := rv.get(m).p.(*MapObj)
		_, kv := m.rvNeed(a[1])
		if o != nil {
			if e, _, _ := m.mapFind(o, kv.get(m)); e != nil {
				return m.rvV(m.canon(typeElem(rt.t)), &RVal{v: e.v})
			}
		}
		return zeroRV(m)
	})
	vdef("SetMapIndex", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		o := rv.get(m).p.(*MapObj)
		_, kv := m.rvNeed(a[1])
		et, ev := m.rvOf(a[2])
		if et == nil {
			m.mapDelete(o, kv.get(m))
		} else {
			m.mapSet(o, kv.get(m), m.rvAssign(et, ev.get(m), typeElem(rt.t)))
		}
		return V{}
	})
	vdef("MapKeys", func(m *Machine, fn *Fn, rt *RT, rv *RVal, a []V) V {
		o, _ := rv.get(m).p.(*MapObj)
		var out []V
		if o != nil {
			kt := m.canon(o.kt)
			for _, e := range o.ents {
				if !e.dead {
					out = append(out, m.rvV(kt, &RVal{v: e.k}))
				}
			}
		}
		return m.mkSlice(out)
	})

	// ---- regexp on concrete strings ----
	reOf := func(m *Machine, v V) *regexp.Regexp {
		g := m.agg(v)
		s := m.concStr(g.e[0])
		return regexp.MustCompile(s)
	}
	mkRe := func(m *Machine, t types.Type, s V) V {
		z := zeroFn(t.(*types.Pointer).Elem())(m)
		z.p.(*Agg).e[0] = s
		return ptrV(z.p.(*Agg))
	}
	def("regexp.MustCompile", func(m *Machine, fn *Fn, a []V) V {
		return mkRe(m, fn.ssa.Signature.Results().At(0).Type(), a[0])
	})
	def("regexp.Compile", func(m *Machine, fn *Fn, a []V) V {
		return tupV(mkRe(m, fn.ssa.Signature.Results().At(0).Type(), a[0]), V{})
	})
	def("(*regexp.Regexp).MatchString", func(m *Machine, fn *Fn, a []V) V {
		if s, ok := a[1].p.(*SymStr); ok {
			if r, ok := m.reMatchSym(reOf(m, a[0]).String(), s.b); ok {
				return boolV(r)
			}
		}
		return bV(reOf(m, a[0]).MatchString(m.concStr(a[1])))
	})
	def("(*regexp.Regexp).FindAllStringSubmatch", func(m *Machine, fn *Fn, a []V) V {
		r := reOf(m, a[0]).FindAllStringSubmatch(m.concStr(a[1]), int(int64(a[2].u)))
		if r == nil {
			return V{}
		}
		var out []V
		for _, x := range r {
			out = append(out, m.strSlice(x))
		}
		return m.mkSlice(out)
	})
	def("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, fn *Fn, a []V) V {
		r := reOf(m, a[0]).FindStringSubmatch(m.concStr(a[1]))
		if r == nil {
			return V{}
		}
		return m.strSlice(r)
	})
	def("(*regexp.Regexp).FindString", func(m *Machine, fn *Fn, a []V) V {
		return sV(reOf(m, a[0]).FindString(m.concStr(a[1])))
	})
	def("(*regexp.Regexp).ReplaceAllString", func(m *Machine, fn *Fn, a []V) V {
		return sV(reOf(m, a[0]).ReplaceAllString(m.concStr(a[1]), m.concStr(a[2])))
	})

	// ---- encoding/json on concrete input ----
	def("encoding/json.Unmarshal", func(m *Machine, fn *Fn, a []V) V {
		b := m.sliceV(a[0])
		c, ok := concBytes(b)
		if !ok {
			m.unsupported("json.Unmarshal of symbolic bytes")
		}
		st, nu := m.jsonStrict, m.jsonNumber
		m.jsonStrict, m.jsonNumber = false, false
		e := m.jsonTop(c, a[1])
		m.jsonStrict, m.jsonNumber = st, nu
		return e
	})
	def("encoding/json.NewDecoder", func(m *Machine, fn *Fn, a []V) V {
		z := zeroFn(fn.ssa.Signature.Results().At(0).Type().(*types.Pointer).Elem())(m)
		z.p.(*Agg).e[0] = a[0]
		return ptrV(z.p.(*Agg))
	})
	def("(*encoding/json.Decoder).Decode", func(m *Machine, fn *Fn, a []V) V {
		r := m.agg(a[0]).e[0].p.(*Iface)
		var data []byte
		switch r.rt.named {
		case "*strings.Reader":
			data = []byte(m.concStr(m.agg(r.v).e[0]))
		case "*bytes.Reader":
			c, ok := concBytes(m.sliceV(m.agg(r.v).e[0]))
			if !ok {
				m.unsupported("json decoding of symbolic bytes")
			}
			data = c
		default:
			m.unsupported("json decoder over %s", r.rt.named)
		}
		if m.sideTabs["jsonused"] == a[0].p {
			m.unsupported("second value from a json decoder")
		}
		m.sideTabs["jsonused"] = a[0].p
		// the decoder takes the first value of its input
		var first json.RawMessage
		if err := json.NewDecoder(bytes.NewReader(data)).Decode(&first); err != nil {
			return m.errVal(sV("json: " + err.Error()))
		}
		m.jsonStrict = m.sideTabs["jsonstrict"] == a[0].p
		m.jsonNumber = m.sideTabs["jsonnumber"] == a[0].p
		e := m.jsonTop(first, a[1])
		m.jsonStrict, m.jsonNumber = false, false
		return e
	})
	def("(*encoding/json.Decoder).UseNumber", func(m *Machine, fn *Fn, a []V) V {
		m.sideTabs["jsonnumber"] = a[0].p
		return V{}
	})
	def("encoding/json.Valid", func(m *Machine, fn *Fn, a []V) V {
		c, ok := concBytes(m.sliceV(a[0]))
		if !ok {
			m.unsupported("json.Valid of symbolic bytes")
		}
		return bV(json.Valid(c))
	})
	def("encoding/json.Marshal", func(m *Machine, fn *Fn, a []V) V {
		var w jsonBuf
		if e := m.jsonOut(&w, a[0], emptyIfaceT); e.p != nil {
			return tupV(V{}, e)
		}
		return tupV(m.mkSlice(w.b), V{})
	})
	// the packet data of a transfer: only strings, empty ones left out
	def("github.com/cosmos/ibc-go/v8/modules/apps/transfer/types.mustProtoMarshalJSON", func(m *Machine, fn *Fn, a []V) V {
		i := a[0].p.(*Iface)
		st := i.rt.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ag := m.agg(m.load(i.v))
		out := map[string]string{}
		for k := 0; k < st.NumFields(); k++ {
			b, ok := st.Field(k).Type().Underlying().(*types.Basic)
			if !ok || b.Kind() != types.String {
				m.unsupported("proto json of %s", i.rt.named)
			}
			if s := m.concStr(ag.e[k]); s != "" {
				name, _, _ := strings.Cut(reflect.StructTag(st.Tag(k)).Get("json"), ",")
				out[name] = s
			}
		}
		var w bytes.Buffer
		enc := json.NewEncoder(&w)
		enc.SetEscapeHTML(false)
		if err := enc.Encode(out); err != nil {
			panic(err)
		}
		return m.bytesV(bytes.TrimSpace(w.Bytes()))
	})
	def("(*encoding/json.Decoder).DisallowUnknownFields", func(m *Machine, fn *Fn, a []V) V {
		m.sideTabs["jsonstrict"] = a[0].p
		return V{}
	})

	// ---- ABI metadata: parsed once per worker ----
	def("(*github.com/ethereum/go-ethereum/accounts/abi/bind.MetaData).GetAbi", func(m *Machine, fn *Fn, a []V) V {
		mt := fn.ssa.Signature.Recv().Type().(*types.Pointer).Elem()
		s := m.concStr(m.agg(a[0]).e[m.fieldIdx(mt, "ABI")])
		if p, ok := m.perm["abi:"+s]; ok {
			return tupV(p.(V), V{})
		}
		p := m.parseABI(s, fn)
		m.perm["abi:"+s] = p
		return tupV(p, V{})
	})

	// ---- proto message names ----
	def("github.com/cosmos/gogoproto/proto.RegisterType", func(m *Machine, fn *Fn, a []V) V {
		if x, ok := a[0].p.(*Iface); ok {
			protoMu.Lock()
			protoNames[x.rt] = m.concStr(a[1])
			protoTypes[m.concStr(a[1])] = x.rt
			protoMu.Unlock()
		}
		return V{}
	})
	def("github.com/cosmos/gogoproto/proto.MessageName", func(m *Machine, fn *Fn, a []V) V {
		if a[0].p == nil {
			return sV("")
		}
		return sV(m.protoName(a[0].p.(*Iface).rt))
	})
}

var protoMu sync.Mutex
var protoNames = map[*RT]string{}
var protoTypes = map[string]*RT{}

func (m *Machine) protoName(rt *RT) string {
	if p, ok := rt.t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if sp := m.pr.prog.Package(n.Obj().Pkg()); sp != nil {
				m.initPkg(sp)
			}
		}
	}
	protoMu.Lock()
	defer protoMu.Unlock()
	return protoNames[rt]
}

func (m *Machine) strSlice(x []string) V {
	var in []V
	for _, s := range x {
		in = append(in, sV(s))
	}
	return m.mkSlice(in)
}

func (m *Machine) parseABI(s string, fn *Fn) V {
	res := fn.ssa.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	pk := m.pr.prog.ImportedPackage("github.com/ethereum/go-ethereum/accounts/abi")
	_ = pk
	m.inInit++
	defer func() { m.inInit-- }()
	spec, steps := m.spec, m.steps
	m.spec = 0
	defer func() { m.spec, m.steps = spec, steps }()
	p := m.newPtr(res, zeroFn(res)(m))
	rt := m.canon(types.NewPointer(res))
	um := m.pr.methodByName(rt, "UnmarshalJSON")
	e := m.call(um, []V{p, m.bytesV([]byte(s))}, nil, nil)
	if e.p != nil {
		m.unsupported("abi parse: %s", m.desc(m.errString(e)))
	}
	return p
}

// ---------- json ----------

// jsonTop decodes a document. As encoding/json does, errors about values are
// kept until the end (the first one is returned) and the rest is decoded.
func (m *Machine) jsonTop(data []byte, target V) V {
	x, ok := target.p.(*Iface)
	if !ok {
		return m.errVal(sV("json: Unmarshal(nil)"))
	}
	pt, ok := x.rt.t.Underlying().(*types.Pointer)
	if !ok || x.v.p == nil {
		return m.errVal(sV("json: Unmarshal(non-pointer)"))
	}
	if !json.Valid(data) {
		return m.errVal(sV("json: invalid"))
	}
	var first V
	m.jsonInto(json.RawMessage(data), x.v, pt.Elem(), &first)
	return first
}

var emptyIfaceT = types.NewInterfaceType(nil, nil)

// jsonAny is the value json puts in an empty interface.
func (m *Machine) jsonAny(raw json.RawMessage, first *V) V {
	raw = json.RawMessage(strings.TrimSpace(string(raw)))
	box := func(t types.Type, v V) V {
		m.pr.mu.Lock()
		rt := canonRT(t)
		m.pr.mu.Unlock()
		return V{p: &Iface{rt, v}}
	}
	var t types.Type
	switch raw[0] {
	case 'n':
		return V{}
	case '"':
		t = types.Typ[types.String]
	case 't', 'f':
		t = types.Typ[types.Bool]
	case '[':
		t = types.NewSlice(emptyIfaceT)
	case '{':
		t = types.NewMap(types.Typ[types.String], emptyIfaceT)
	default:
		if m.jsonNumber {
			return box(m.pr.prog.ImportedPackage("encoding/json").Type("Number").Object().Type(), sV(string(raw)))
		}
		var f float64
		if err := json.Unmarshal(raw, &f); err != nil {
			if first.p == nil {
				*first = m.errVal(sV("json: " + err.Error()))
			}
			return V{}
		}
		return box(types.Typ[types.Float64], fV(f))
	}
	p := m.newPtr(t, zeroFn(t)(m))
	m.jsonInto(raw, p, t, first)
	return box(t, m.load(p))
}

// jsonInto decodes raw into the variable at addr of type t.
func (m *Machine) jsonInto(raw json.RawMessage, addr V, t types.Type, first *V) {
	raw = json.RawMessage(strings.TrimSpace(string(raw)))
	null := string(raw) == "null"
	keep := func(e V) {
		if e.p != nil && first.p == nil {
			*first = e
		}
	}
	bad := func(err error) { keep(m.errVal(sV("json: " + err.Error()))) }
	if types.TypeString(t, nil) == "encoding/json.Number" && !null {
		var n json.Number
		if err := json.Unmarshal(raw, &n); err != nil {
			bad(err)
			return
		}
		m.store(addr, sV(string(n)))
		return
	}
	if um := m.pr.methodByName(m.canon(types.NewPointer(t)), "UnmarshalJSON"); um != nil && !null {
		keep(m.call(um, []V{addr, m.bytesV(raw)}, nil, nil))
		return
	}
	if um := m.pr.methodByName(m.canon(types.NewPointer(t)), "UnmarshalText"); um != nil && len(raw) > 0 && raw[0] == '"' {
		var s string
		if err := json.Unmarshal(raw, &s); err != nil {
			bad(err)
			return
		}
		keep(m.call(um, []V{addr, m.bytesV([]byte(s))}, nil, nil))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if null {
			m.store(addr, V{})
			return
		}
		p := m.load(addr)
		if p.p == nil {
			p = m.newPtr(u.Elem(), zeroFn(u.Elem())(m))
			m.store(addr, p)
		}
		m.jsonInto(raw, p, u.Elem(), first)
		return
	case *types.Interface:
		if null {
			m.store(addr, V{})
			return
		}
		if u.NumMethods() != 0 {
			m.unsupported("json into interface %s", t)
		}
		m.store(addr, m.jsonAny(raw, first))
		return
	}
	if null {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			var s string
			if err := json.Unmarshal(raw, &s); err != nil {
				bad(err)
				return
			}
			m.store(addr, sV(s))
			return
		}
		if u.Info()&types.IsBoolean != 0 {
			var b bool
			if err := json.Unmarshal(raw, &b); err != nil {
				bad(err)
				return
			}
			m.store(addr, bV(b))
			return
		}
		if u.Kind() == types.Float64 {
			var f float64
			if err := json.Unmarshal(raw, &f); err != nil {
				bad(err)
				return
			}
			m.store(addr, fV(f))
			return
		}
		if k, ok := intKindB(u); ok {
			if k.s {
				var x int64
				if err := json.Unmarshal(raw, &x); err != nil {
					bad(err)
					return
				}
				if int64(k.norm(uint64(x))) != x {
					keep(m.errVal(sV("json: number out of range")))
					return
				}
				m.store(addr, V{u: uint64(x)})
			} else {
				var x uint64
				if err := json.Unmarshal(raw, &x); err != nil {
					bad(err)
					return
				}
				if k.norm(x) != x {
					keep(m.errVal(sV("json: number out of range")))
					return
				}
				m.store(addr, V{u: x})
			}
			return
		}
	case *types.Slice:
		if k, ok := intKind(u.Elem()); ok && k.w == 8 && !k.s {
			var b []byte
			if err := json.Unmarshal(raw, &b); err != nil {
				bad(err)
				return
			}
			m.store(addr, m.bytesV(b))
			return
		}
		var xs []json.RawMessage
		if err := json.Unmarshal(raw, &xs); err != nil {
			bad(err)
			return
		}
		e := make([]V, len(xs))
		z := zeroFn(u.Elem())
		for i := range e {
			e[i] = z(m)
		}
		sv := m.mkSlice(e)
		ag := sv.p.(*Slice).a
		for i, x := range xs {
			m.jsonInto(x, refTo(u.Elem(), ag, i), u.Elem(), first)
		}
		m.store(addr, sv)
		return
	case *types.Map:
		var xs map[string]json.RawMessage
		if err := json.Unmarshal(raw, &xs); err != nil {
			bad(err)
			return
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			m.unsupported("json into %s", t)
		}
		v := m.load(addr)
		o, _ := v.p.(*MapObj)
		if o == nil {
			o = m.newMap(u.Key())
			m.store(addr, V{p: o})
		}
		for _, k := range sortedKeys(xs) {
			p := m.newPtr(u.Elem(), zeroFn(u.Elem())(m))
			m.jsonInto(xs[k], p, u.Elem(), first)
			m.mapSet(o, sV(k), m.load(p))
		}
		return
	case *types.Struct:
		var xs map[string]json.RawMessage
		if err := json.Unmarshal(raw, &xs); err != nil {
			bad(err)
			return
		}
		ag := addr.p.(*Agg)
		for _, k := range sortedKeys(xs) {
			best := -1
			for i := 0; i < u.NumFields(); i++ {
				n, _, skip := m.jsonField(u, i)
				if skip {
					continue
				}
				if n == k {
					best = i
					break
				}
				if strings.EqualFold(n, k) && best < 0 {
					best = i
				}
			}
			if best >= 0 {
				ft := u.Field(best).Type()
				m.jsonInto(xs[k], refTo(ft, ag, best), ft, first)
			} else if m.jsonStrict {
				keep(m.errVal(sV("json: unknown field " + k)))
			}
		}
		return
	}
	m.unsupported("json into %s", t)
}

// jsonField is the name and the options of a struct field.
func (m *Machine) jsonField(u *types.Struct, i int) (name, opts string, skip bool) {
	f := u.Field(i)
	if f.Embedded() {
		m.unsupported("json embedded field")
	}
	if !f.Exported() {
		return "", "", true
	}
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return "", "", true
	}
	name, opts, _ = strings.Cut(tag, ",")
	if name == "" {
		name = f.Name()
	}
	return name, opts, false
}

// jsonBuf is a document that is being written.
type jsonBuf struct{ b []V }

func (w *jsonBuf) Write(x []byte) {
	for _, c := range x {
		w.b = append(w.b, V{u: uint64(c)})
	}
}
func (w *jsonBuf) put(c byte)     { w.b = append(w.b, V{u: uint64(c)}) }
func (w *jsonBuf) puts(x string) { w.Write([]byte(x)) }

// jsonStr writes a string with symbolic bytes when none of them is escaped.
func (m *Machine) jsonStr(w *jsonBuf, b []V) bool {
	tt := m.tt
	var cs []*Term
	for _, x := range b {
		c := m.term(x, 8)
		cs = append(cs, tt.Ule(tt.BVu(8, 32), c), tt.Ule(c, tt.BVu(8, 126)))
		for _, k := range []byte("\"\\<>&") {
			cs = append(cs, tt.Not(tt.Eq(c, tt.BVu(8, uint64(k)))))
		}
	}
	if !m.decide(tt.And(cs...)) {
		return false
	}
	w.put('"')
	w.b = append(w.b, b...)
	w.put('"')
	return true
}

// jsonOut encodes a value of type t (numbers and byte slices must be
// concrete); an error value ends it.
func (m *Machine) jsonOut(w *jsonBuf, v V, t types.Type) V {
	std := func(x any) V {
		b, err := json.Marshal(x)
		if err != nil {
			return m.errVal(sV("json: " + err.Error()))
		}
		w.Write(b)
		return V{}
	}
	if types.TypeString(t, nil) == "encoding/json.Number" {
		s := m.concStr(v)
		if s == "" {
			s = "0"
		}
		return std(json.Number(s))
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	if !(isPtr && v.p == nil) {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			mm := m.pr.methodByName(m.canon(t), name)
			if mm == nil {
				continue
			}
			if _, ok := t.Underlying().(*types.Interface); ok {
				break
			}
			r := m.call(mm, []V{v}, nil, nil)
			tup := r.p.(*Tuple).e
			if tup[1].p != nil {
				return tup[1]
			}
			sb := m.sliceV(tup[0])
			b, ok := concBytes(sb)
			if !ok {
				if name == "MarshalJSON" {
					w.b = append(w.b, sb...)
				} else if !m.jsonStr(w, sb) {
					m.unsupported("json encoding of symbolic bytes")
				}
				return V{}
			}
			if name == "MarshalText" {
				return std(string(b))
			}
			return std(json.RawMessage(b))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			w.puts("null")
			return V{}
		}
		return m.jsonOut(w, i.v, i.rt.t)
	case *types.Pointer:
		if v.p == nil {
			w.puts("null")
			return V{}
		}
		return m.jsonOut(w, m.load(v), u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if x, ok := v.p.(*SymStr); ok && m.jsonStr(w, x.b) {
				return V{}
			}
			return std(m.concStr(v))
		}
		if u.Kind() == types.Float64 {
			return std(f64(v))
		}
		if v.p != nil {
			m.unsupported("json encoding of a symbolic value")
		}
		if u.Info()&types.IsBoolean != 0 {
			return std(v.u != 0)
		}
		if k, ok := intKindB(u); ok {
			if k.s {
				return std(int64(v.u))
			}
			return std(v.u)
		}
	case *types.Slice:
		if v.p == nil {
			w.puts("null")
			return V{}
		}
		if k, ok := intKind(u.Elem()); ok && k.w == 8 && !k.s {
			b, ok := concBytes(m.sliceV(v))
			if !ok {
				m.unsupported("json encoding of symbolic bytes")
			}
			return std(b)
		}
		w.put('[')
		for i, x := range m.sliceV(v) {
			if i > 0 {
				w.put(',')
			}
			if e := m.jsonOut(w, x, u.Elem()); e.p != nil {
				return e
			}
		}
		w.put(']')
		return V{}
	case *types.Map:
		o, ok := v.p.(*MapObj)
		if !ok {
			w.puts("null")
			return V{}
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			break
		}
		xs := map[string]V{}
		for _, e := range o.ents {
			if !e.dead {
				xs[m.concStr(e.k)] = e.v
			}
		}
		w.put('{')
		for i, k := range sortedKeys(xs) {
			if i > 0 {
				w.put(',')
			}
			std(k)
			w.put(':')
			if e := m.jsonOut(w, xs[k], u.Elem()); e.p != nil {
				return e
			}
		}
		w.put('}')
		return V{}
	case *types.Struct:
		ag := m.agg(v)
		w.put('{')
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			name, opts, skip := m.jsonField(u, i)
			if skip {
				continue
			}
			ft, x := u.Field(i).Type(), ag.e[i]
			if isAgg(ft) {
				x = m.copyV(x)
			}
			if opts != "" && opts != "omitempty" {
				m.unsupported("json option %s", opts)
			}
			if opts == "omitempty" && m.jsonEmpty(x, ft) {
				continue
			}
			if n > 0 {
				w.put(',')
			}
			n++
			std(name)
			w.put(':')
			if e := m.jsonOut(w, x, ft); e.p != nil {
				return e
			}
		}
		w.put('}')
		return V{}
	}
	m.unsupported("json from %s", t)
	return V{}
}

func (m *Machine) jsonEmpty(x V, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return x.p == nil
	case *types.Slice:
		return x.p == nil || len(m.sliceV(x)) == 0
	case *types.Map:
		o, ok := x.p.(*MapObj)
		return !ok || o.n == 0
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strLen(x) == 0
		}
		if x.p != nil {
			m.unsupported("json encoding of a symbolic value")
		}
		return x.u == 0
	}
	return false
}

// reMatchSym: match of ^[class]...$ style patterns over symbolic bytes; filled per pattern
func (m *Machine) reMatchSym(pat string, b []V) (*Term, bool) {
	cls, min, max, ok := simpleRe(pat)
	if !ok {
		return nil, false
	}
	if len(b) < min || len(b) > max || len(b) != len(b) {
		return m.tt.False, true
	}
	r := m.tt.True
	for i, x := range b {
		c := cls(i)
		var alts []*Term
		t := m.term(x, 8)
		for lo := 0; lo < 256; {
			if !c(byte(lo)) {
				lo++
				continue
			}
			hi := lo
			for hi+1 < 256 && c(byte(hi+1)) {
				hi++
			}
			alts = append(alts, m.tt.And(m.tt.Ule(m.tt.BVu(8, uint64(lo)), t), m.tt.Ule(t, m.tt.BVu(8, uint64(hi)))))
			lo = hi + 1
		}
		r = m.tt.And(r, m.tt.Or(alts...))
	}
	return r, true
}

// simpleRe: ^[A][B]{n,m}$
func simpleRe(p string) (func(i int) func(byte) bool, int, int, bool) {
	mm := regexp.MustCompile(`^\^(\[[^\]]*\])(\[[^\]]*\])\{(\d+),(\d+)\}\$$`).FindStringSubmatch(p)
	if mm == nil {
		return nil, 0, 0, false
	}
	r1, r2 := regexp.MustCompile("^"+mm[1]+"$"), regexp.MustCompile("^"+mm[2]+"$")
	var lo, hi int
	fmt.Sscan(mm[3], &lo)
	fmt.Sscan(mm[4], &hi)
	f1 := func(b byte) bool { return b < 128 && r1.MatchString(string(rune(b))) }
	f2 := func(b byte) bool { return b < 128 && r2.MatchString(string(rune(b))) }
	return func(i int) func(byte) bool {
		if i == 0 {
			return f1
		}
		return f2
	}, lo + 1, hi + 1, true
}
