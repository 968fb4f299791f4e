package main

import (
	"encoding/base32"
	"encoding/base64"
	"fmt"
)

// baseEnc is a base64 or base32 alphabet.
type baseEnc struct {
	bits  int // bits per character
	chars int // characters per group
	bytes int // bytes per group
	alpha string
	pad   bool
	b64   *base64.Encoding
	b32   *base32.Encoding
	inv   [256]int
}

var baseCache = map[any]*baseEnc{}

func (p *Path) baseOf(v Value) *baseEnc {
	p.e.mmu.Lock()
	defer p.e.mmu.Unlock()
	switch o := v.(type) {
	case *Value:
		if o == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.baseOfObj((*o).(*NativeObj).x)
	case *NativeObj:
		return p.baseOfObj(o.x)
	}
	panic(fmt.Sprintf("baseOf %T", v))
}

func (p *Path) baseOfObj(x any) *baseEnc {
	if e, ok := baseCache[x]; ok {
		return e
	}
	e := &baseEnc{}
	switch b := x.(type) {
	case *base64.Encoding:
		e.b64, e.bits, e.chars, e.bytes = b, 6, 4, 3
		e.alpha = alphabetOf(b.EncodeToString, 6)
		e.pad = len(b.EncodeToString([]byte{1})) == 4
	case *base32.Encoding:
		e.b32, e.bits, e.chars, e.bytes = b, 5, 8, 5
		e.alpha = alphabetOf(b.EncodeToString, 5)
		e.pad = len(b.EncodeToString([]byte{1})) == 8
	}
	for i := range e.inv {
		e.inv[i] = -1
	}
	for i := 0; i < len(e.alpha); i++ {
		e.inv[e.alpha[i]] = i
	}
	baseCache[x] = e
	return e
}

type baseGroup struct{ src []*Term }

// encodeChar is the exact character of a 5/6-bit value (a width-8 term).
func (p *Path) encodeChar(e *baseEnc, v *Term) *Term {
	if v.isConst() {
		return p.cint(8, uint64(e.alpha[v.val]))
	}
	n := 1 << e.bits
	var r *Term
	for hi := n; hi > 0; {
		lo := hi - 1
		for lo > 0 && e.alpha[lo-1] == e.alpha[lo]-1 {
			lo--
		}
		c := p.bd.Bin(OAdd, v, p.cint(8, uint64(int(e.alpha[lo])-lo)))
		if r == nil {
			r = c
		} else {
			r = p.bd.Ite(p.bd.Cmp(OUlt, v, p.cint(8, uint64(hi))), c, r)
		}
		hi = lo
	}
	return r
}

func (p *Path) bitsOf(b []*Term, from, n int) *Term {
	// n (<=8) bits starting at bit `from` of the big-endian byte sequence,
	// zero-extended on the right
	r := p.cint(8, 0)
	for k := 0; k < n; {
		bi, off := (from+k)/8, (from+k)%8
		take := 8 - off
		if take > n-k {
			take = n - k
		}
		var t *Term
		if bi < len(b) {
			t = b[bi]
		} else {
			t = p.cint(8, 0)
		}
		// bits off..off+take-1 (from the msb)
		x := p.bd.Bin(OBAnd, p.bd.Bin(OLShr, t, p.cint(8, uint64(8-off-take))), p.cint(8, uint64(1<<take-1)))
		r = p.bd.Bin(OBOr, r, p.bd.Bin(OShl, x, p.cint(8, uint64(n-k-take))))
		k += take
	}
	return r
}

func groupKey(alpha string, c []*Term) string {
	s := alpha[:4] + alpha[len(alpha)-2:]
	for _, t := range c {
		s += fmt.Sprintf(",%d", t.id)
	}
	return s
}

func (p *Path) baseEncode(e *baseEnc, b []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(b); i += e.bytes {
		g := b[i:min(i+e.bytes, len(b))]
		nch := (len(g)*8 + e.bits - 1) / e.bits
		var cs []*Term
		for j := 0; j < nch; j++ {
			cs = append(cs, p.encodeChar(e, p.bitsOf(g, j*e.bits, e.bits)))
		}
		if p.w.groups == nil {
			p.w.groups = map[string][]*Term{}
		}
		p.w.groups[groupKey(e.alpha, cs)] = append([]*Term(nil), g...)
		for j := nch; e.pad && j < e.chars; j++ {
			cs = append(cs, p.cint(8, '='))
		}
		out = append(out, cs...)
	}
	return out
}

// baseDecode returns the bytes, or the offset of the corrupt input.
func (p *Path) baseDecode(e *baseEnc, src []*Term) ([]*Term, int) {
	if c, ok := termsConcrete(src); ok {
		var out []byte
		var err error
		if e.b64 != nil {
			out, err = e.b64.DecodeString(string(c))
		} else {
			out, err = e.b32.DecodeString(string(c))
		}
		ts := make([]*Term, len(out))
		for i, x := range out {
			ts[i] = p.cint(8, uint64(x))
		}
		if err != nil {
			off := 0
			switch x := err.(type) {
			case base64.CorruptInputError:
				off = int(x)
			case base32.CorruptInputError:
				off = int(x)
			}
			return ts, off
		}
		return ts, -1
	}
	// concrete newlines are skipped
	var in []*Term
	for _, t := range src {
		if t.isConst() && (t.val == '\n' || t.val == '\r') {
			continue
		}
		in = append(in, t)
	}
	n := len(in)
	// padding
	np := 0
	if e.pad {
		for np < n && in[n-1-np].isConst() && in[n-1-np].val == '=' {
			np++
		}
	}
	body := in[:n-np]
	isA := p.bd.T
	okch := func(t *Term) *Term { return p.inSet(t, func(c byte) bool { return e.inv[c] >= 0 }) }
	for i := 0; i < len(body); i += e.chars {
		g := body[i:min(i+e.chars, len(body))]
		if _, ok := p.w.groups[groupKey(e.alpha, g)]; ok {
			continue
		}
		for _, t := range g {
			isA = p.bd.And(isA, okch(t))
		}
	}
	if !p.branch(isA) {
		// some character is outside of the alphabet
		odd := p.bd.F
		for _, t := range body {
			if !t.isConst() {
				odd = p.bd.Or(odd, p.inSet(t, func(c byte) bool { return c == '\n' || c == '\r' || c == '=' }))
			}
		}
		if p.branch(odd) {
			p.unsupported("base64/base32 text with symbolic newlines or padding")
		}
		for i, t := range body {
			if !p.branch(okch(t)) {
				return nil, i
			}
		}
		return nil, 0
	}
	rem := len(body) % e.chars
	if e.pad && n%e.chars != 0 {
		return nil, len(src)
	}
	var out []*Term
	for i := 0; i < len(body); i += e.chars {
		g := body[i:min(i+e.chars, len(body))]
		if s, ok := p.w.groups[groupKey(e.alpha, g)]; ok {
			out = append(out, s...)
			continue
		}
		vals := make([]*Term, len(g))
		for j, t := range g {
			vals[j] = p.decodeChar(e, t)
		}
		nb := len(g) * e.bits / 8
		for k := 0; k < nb; k++ {
			r := p.cint(8, 0)
			for bit := 0; bit < 8; {
				pos := k*8 + bit
				ci, off := pos/e.bits, pos%e.bits
				take := min(e.bits-off, 8-bit)
				x := p.bd.Bin(OBAnd, p.bd.Bin(OLShr, vals[ci], p.cint(8, uint64(e.bits-off-take))), p.cint(8, uint64(1<<take-1)))
				r = p.bd.Bin(OBOr, r, p.bd.Bin(OShl, x, p.cint(8, uint64(8-bit-take))))
				bit += take
			}
			out = append(out, r)
		}
	}
	switch {
	case e.bits == 6 && rem == 1, e.bits == 5 && (rem == 1 || rem == 3 || rem == 6):
		return out, len(src)
	case e.pad && np > 0 && (e.bits == 6 && np > 2 || e.bits == 5 && np > 6 || np >= e.chars):
		return out, len(src) - np
	}
	return out, -1
}

func (p *Path) decodeChar(e *baseEnc, c *Term) *Term {
	if c.isConst() {
		return p.cint(8, uint64(e.inv[byte(c.val)]))
	}
	var r *Term
	for hi := len(e.alpha); hi > 0; {
		lo := hi - 1
		for lo > 0 && e.alpha[lo-1] == e.alpha[lo]-1 {
			lo--
		}
		v := p.bd.Bin(OSub, c, p.cint(8, uint64(int(e.alpha[lo])-lo)))
		if r == nil {
			r = v
		} else {
			in := p.bd.And(p.bd.Cmp(OUle, p.cint(8, uint64(e.alpha[lo])), c), p.bd.Cmp(OUle, c, p.cint(8, uint64(e.alpha[hi-1]))))
			r = p.bd.Ite(in, v, r)
		}
		hi = lo
	}
	return p.bd.Bin(OBAnd, r, p.cint(8, uint64(1<<e.bits-1)))
}

func regBaseN() {
	for _, n := range []string{"64", "32"} {
		pk := "encoding/base" + n
		m := "(*" + pk + ".Encoding)."
		kind := "base" + n
		bad := func(p *Path, off int) Value {
			if off < 0 {
				return Iface{}
			}
			return Iface{t: p.e.namedType(pk, "CorruptInputError"), v: p.intv(off)}
		}
		regv(m+"EncodeToString", func(p *Path, a []Value) Value {
			return strOf(p.baseEncode(p.baseOf(a[0]), sliceTerms(a[1])))
		})
		regv(m+"Encode", func(p *Path, a []Value) Value {
			out := p.baseEncode(p.baseOf(a[0]), sliceTerms(a[2]))
			d := a[1].(SliceV)
			if len(d.a) < len(out) {
				p.gopanicStr("runtime error: index out of range")
			}
			for i, t := range out {
				d.a[i] = t
			}
			return nil
		})
		regv(m+"DecodeString", func(p *Path, a []Value) Value {
			out, off := p.baseDecode(p.baseOf(a[0]), p.sbytes(a[1].(Str)))
			return Tuple{p.termsVal(out), bad(p, off)}
		})
		regv(m+"Decode", func(p *Path, a []Value) Value {
			out, off := p.baseDecode(p.baseOf(a[0]), sliceTerms(a[2]))
			d := a[1].(SliceV)
			if len(d.a) < len(out) {
				p.gopanicStr("runtime error: index out of range")
			}
			for i, t := range out {
				d.a[i] = t
			}
			return Tuple{p.intv(len(out)), bad(p, off)}
		})
		regv(m+"EncodedLen", func(p *Path, a []Value) Value {
			e := p.baseOf(a[0])
			k := p.intOf(a[1])
			if e.b64 != nil {
				return p.intv(e.b64.EncodedLen(k))
			}
			return p.intv(e.b32.EncodedLen(k))
		})
		regv(m+"DecodedLen", func(p *Path, a []Value) Value {
			e := p.baseOf(a[0])
			k := p.intOf(a[1])
			if e.b64 != nil {
				return p.intv(e.b64.DecodedLen(k))
			}
			return p.intv(e.b32.DecodedLen(k))
		})
		wp := func(p *Path, a []Value) Value {
			e := p.baseOf(a[0])
			r := rune(sx(a[1].(*Term).val, 32))
			var x any
			if e.b64 != nil {
				x = e.b64.WithPadding(r)
			} else {
				x = e.b32.WithPadding(r)
			}
			return &NativeObj{kind: kind, x: x}
		}
		regv(m+"WithPadding", wp)
		regv("("+pk+".Encoding).WithPadding", wp)
		regv(m+"Strict", func(p *Path, a []Value) Value { return a[0] })
		regv("("+pk+".CorruptInputError).Error", func(p *Path, a []Value) Value {
			return mkstr(fmt.Sprintf("illegal base%s data at input byte %d", n, p.intOf(a[0])))
		})
	}
}
