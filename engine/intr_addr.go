package main

import (
	"fmt"
	"strings"
)

// bech32: real codec on concrete data, an injective uninterpreted encoding with
// a decode table on symbolic data.

const bechCS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bechPoly(v []int) int {
	gen := []int{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := 1
	for _, x := range v {
		b := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ x
		for i := 0; i < 5; i++ {
			if b>>uint(i)&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func bechHrp(h string) []int {
	var r []int
	for _, c := range []byte(h) {
		r = append(r, int(c>>5))
	}
	r = append(r, 0)
	for _, c := range []byte(h) {
		r = append(r, int(c&31))
	}
	return r
}

func convBits(in []int, from, to uint, pad bool) ([]int, bool) {
	acc, n := 0, uint(0)
	var out []int
	for _, x := range in {
		acc = acc<<from | x
		n += from
		for n >= to {
			n -= to
			out = append(out, acc>>n&(1<<to-1))
		}
		acc &= 1<<n - 1
	}
	if pad {
		if n > 0 {
			out = append(out, acc<<(to-n)&(1<<to-1))
		}
	} else if n >= from || acc<<(to-n)&(1<<to-1) != 0 {
		return nil, false
	}
	return out, true
}

func bech32Encode(hrp string, data []byte) string {
	in := make([]int, len(data))
	for i, b := range data {
		in[i] = int(b)
	}
	d, _ := convBits(in, 8, 5, true)
	p := bechPoly(append(append(bechHrp(hrp), d...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		d = append(d, p>>uint(5*(5-i))&31)
	}
	var sb strings.Builder
	sb.WriteString(hrp + "1")
	for _, x := range d {
		sb.WriteByte(bechCS[x])
	}
	return sb.String()
}

func bech32Decode(s string) (string, []byte, error) {
	bad := fmt.Errorf("decoding bech32 failed: invalid")
	if len(s) < 8 || len(s) > 1023 || strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return "", nil, bad
	}
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 1 || i+7 > len(s) {
		return "", nil, bad
	}
	var d []int
	for _, c := range []byte(s[i+1:]) {
		x := strings.IndexByte(bechCS, c)
		if x < 0 {
			return "", nil, bad
		}
		d = append(d, x)
	}
	if bechPoly(append(bechHrp(s[:i]), d...)) != 1 {
		return "", nil, bad
	}
	o, ok := convBits(d[:len(d)-6], 5, 8, false)
	if !ok {
		return "", nil, bad
	}
	r := make([]byte, len(o))
	for i, x := range o {
		r[i] = byte(x)
	}
	return s[:i], r, nil
}

type bechEnt struct {
	hrp  string
	str  []V
	data []V
}

func (m *Machine) bechEnc(hrp string, data []V) V {
	n := (len(data)*8 + 4) / 5
	b := m.hashUF("bech32_"+hrp, data, n+6, func(x []byte) []byte { return []byte(bech32Encode(hrp, x)[len(hrp)+1:]) }, int32((n+6)*8))
	var out []V
	for _, c := range []byte(hrp + "1") {
		out = append(out, V{u: uint64(c)})
	}
	out = append(out, b...)
	s := mkStr(out)
	if ss, ok := s.p.(*SymStr); ok {
		tab, _ := m.sideTabs["bech"].([]bechEnt)
		m.sideTabs["bech"] = append(tab, bechEnt{hrp, ss.b, append([]V{}, data...)})
	}
	return s
}

func (m *Machine) bechFind(b []V) *bechEnt {
	tab, _ := m.sideTabs["bech"].([]bechEnt)
next:
	for i := range tab {
		e := &tab[i]
		if len(e.str) != len(b) {
			continue
		}
		for j := range b {
			if b[j] != e.str[j] {
				continue next
			}
		}
		return e
	}
	return nil
}

func (m *Machine) bechDec(s V) (hrp string, data []V, err string) {
	if ss, ok := s.p.(*SymStr); ok {
		if e := m.bechFind(ss.b); e != nil {
			return e.hrp, e.data, ""
		}
		if len(ss.b) < 8 {
			return "", nil, "decoding bech32 failed"
		}
		m.unsupported("bech32 decoding of symbolic string %s", m.desc(s))
	}
	if isOpaque(s) {
		m.unsupported("bech32 decoding of opaque string %s", m.desc(s))
	}
	h, d, e := bech32Decode(m.concStr(s))
	if e != nil {
		return "", nil, e.Error()
	}
	r := make([]V, len(d))
	for i, b := range d {
		r[i].u = uint64(b)
	}
	return h, r, ""
}

func init() {
	def("github.com/cosmos/cosmos-sdk/types/bech32.ConvertAndEncode", func(m *Machine, fn *Fn, a []V) V {
		return tupV(m.bechEnc(m.concStr(a[0]), m.sliceV(a[1])), V{})
	})
	def("github.com/cosmos/cosmos-sdk/types/bech32.DecodeAndConvert", func(m *Machine, fn *Fn, a []V) V {
		h, d, e := m.bechDec(a[0])
		if e != "" {
			return tupV(sV(""), V{}, m.errVal(sV(e)))
		}
		return tupV(sV(h), m.mkSlice(append([]V{}, d...)), V{})
	})
	def("github.com/cosmos/cosmos-sdk/types.IsAddrCacheEnabled", func(m *Machine, fn *Fn, a []V) V { return bV(false) })
	def("github.com/cosmos/cosmos-sdk/types.cacheBech32Addr", func(m *Machine, fn *Fn, a []V) V {
		return m.bechEnc(m.concStr(a[0]), m.sliceV(a[1]))
	})
	old := intrinsics["strings.TrimSpace"]
	def("strings.TrimSpace", func(m *Machine, fn *Fn, a []V) V {
		if ss, ok := a[0].p.(*SymStr); ok && m.bechFind(ss.b) != nil {
			return a[0]
		}
		if old != nil {
			return old(m, fn, a)
		}
		return sV(strings.TrimSpace(m.concStr(a[0])))
	})
}
