package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// jnode is a JSON value with symbolic leaves.
//
//	z null  b bool  n number  s string  a array  o object  t time
type jnode struct {
	k    byte
	t    *Term  // bool, or 64-bit integer
	sgn  bool   // signed integer
	lit  string // concrete number
	s    Str
	a    []*jnode
	keys []Str
	tm   Struct
}

type jmemo struct {
	text []*Term
	node *jnode
}

func termsHash(b []*Term) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range b {
		h = (h ^ uint64(uint32(t.id))) * 1099511628211
	}
	return h
}

func (p *Path) jRemember(text []*Term, n *jnode) {
	h := termsHash(text)
	for _, m := range p.w.jmemo[h] {
		if p.sameTerms(m.text, text) {
			return
		}
	}
	p.w.jmemo[h] = append(p.w.jmemo[h], jmemo{text, n})
}

func (p *Path) jRecall(text []*Term) *jnode {
	for _, m := range p.w.jmemo[termsHash(text)] {
		if p.sameTerms(m.text, text) {
			return m.node
		}
	}
	return nil
}

type jsonError struct{ err Iface }

func (p *Path) jfail(msg string) {
	panic(jsonError{p.newError(msg)})
}

type jfield struct {
	name   string
	idx    []int
	typ    types.Type
	omit   bool
	quoted bool
}

func (p *Path) jfields(t types.Type) []jfield {
	st := t.Underlying().(*types.Struct)
	var out []jfield
	if p.jfull {
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Exported() && plainData(f.Type()) {
				out = append(out, jfield{name: f.Name(), idx: []int{i}, typ: f.Type()})
			}
		}
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Anonymous() && parts[0] == "" {
			ft := f.Type()
			ptr := false
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				ft = pt.Elem()
				ptr = true
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				if ptr {
					p.unsupported("embedded pointer in JSON struct")
				}
				for _, g := range p.jfields(ft) {
					g.idx = append([]int{i}, g.idx...)
					out = append(out, g)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		n := parts[0]
		if n == "" {
			n = f.Name()
		}
		jf := jfield{name: n, idx: []int{i}, typ: f.Type()}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
			if o == "string" {
				jf.quoted = true
			}
		}
		out = append(out, jf)
	}
	return out
}

// plainData leaves out the types which a full snapshot does not enter:
// functions, channels and the records of other packages.
func plainData(t types.Type) bool {
	t = deref(types.Unalias(t))
	if isTime(t) {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/greenpau/go-identity")
		}
	}
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return false
	}
	return true
}

func isTime(t types.Type) bool { return types.TypeString(types.Unalias(t), nil) == "time.Time" }

func (p *Path) jstr(s Str) Str {
	if p.jfull {
		return s
	}
	if c, ok := s.concrete(); ok {
		b, _ := json.Marshal(c)
		var r string
		json.Unmarshal(b, &r)
		return mkstr(r)
	}
	// symbolic bytes are ASCII here, so that they end the concrete texts
	var out []*Term
	p.runs(s.b, "JSON", func(s string) { out = append(out, p.sbytes(p.jstr(mkstr(s)))...) }, func(t *Term) { out = append(out, t) })
	return strOf(out)
}

func (p *Path) jempty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !p.branch(x)
		}
		return p.branch(p.bd.Eq(x, p.bd.Const(x.w, 0)))
	case Str:
		return x.len() == 0
	case float64:
		return x == 0
	case *FTerm:
		return p.branch(p.bd.Eq(x.num, p.bd.Const(x.num.w, 0)))
	case *Value:
		return x == nil
	case SliceV:
		return len(x.a) == 0
	case Array:
		return len(x) == 0
	case *MapV:
		return x.length() == 0
	case Iface:
		return x.t == nil
	case *NativeObj:
		return x == nil
	}
	return false
}

func (p *Path) jenc(t types.Type, v Value) *jnode {
	if isTime(t) {
		if po, ok := v.(poison); ok {
			p.unsupported(po.why)
		}
		return &jnode{k: 't', tm: v.(Struct)}
	}
	if _, isIf := t.Underlying().(*types.Interface); !isIf && !p.jfull {
		if c, ok := v.(*Value); !ok || c != nil {
			for _, mn := range []string{"MarshalJSON", "MarshalText"} {
				rt, rv := t, v
				f := p.hasMethod(t, mn)
				if f == nil {
					if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
						if f = p.hasMethod(types.NewPointer(t), mn); f != nil {
							rt, rv = types.NewPointer(t), cell(copyVal(v))
						}
					}
				}
				if f == nil {
					continue
				}
				if isTime(deref(rt)) {
					break
				}
				r := p.callMethod(Iface{t: rt, v: rv}, mn).(Tuple)
				if e := r[1].(Iface); e.t != nil {
					panic(jsonError{e})
				}
				if mn == "MarshalText" {
					return &jnode{k: 's', s: p.jstr(strOf(sliceTerms(r[0])))}
				}
				return p.jparse(sliceTerms(r[0]))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return &jnode{k: 'b', t: x}
			}
			_, sg, _ := intWidth(u)
			if x.isConst() {
				if sg {
					return &jnode{k: 'n', lit: strconv.FormatInt(sx(x.val, x.w), 10)}
				}
				return &jnode{k: 'n', lit: strconv.FormatUint(x.val, 10)}
			}
			e := p.bd.ZExt(x, 64)
			if sg {
				e = p.bd.SExt(x, 64)
			}
			return &jnode{k: 'n', t: e, sgn: sg}
		case Str:
			return &jnode{k: 's', s: p.jstr(x)}
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				p.jfail("json: unsupported value: " + strconv.FormatFloat(x, 'g', -1, 64))
			}
			b, _ := json.Marshal(x)
			return &jnode{k: 'n', lit: string(b)}
		case *FTerm:
			if x.den == nil {
				return &jnode{k: 'n', t: x.num, sgn: true}
			}
		}
	case *types.Slice:
		s := v.(SliceV)
		if s.a == nil {
			if p.jfull {
				return &jnode{k: 'a'}
			}
			return &jnode{k: 'z'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			e := p.baseOfObj2(base64.StdEncoding)
			return &jnode{k: 's', s: strOf(p.baseEncode(e, sliceTerms(s)))}
		}
		n := &jnode{k: 'a'}
		for i, e := range s.a {
			if p.w.mon != nil {
				p.w.mon.access(p, &s.a[i], false)
			}
			n.a = append(n.a, p.jenc(u.Elem(), e))
		}
		return n
	case *types.Array:
		n := &jnode{k: 'a'}
		for _, e := range v.(Array) {
			n.a = append(n.a, p.jenc(u.Elem(), e))
		}
		return n
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			if p.jfull {
				return &jnode{k: 'o'}
			}
			return &jnode{k: 'z'}
		}
		p.monMap(m, false)
		n := &jnode{k: 'o'}
		type kv struct {
			k Str
			v Value
		}
		var kvs []kv
		allc := true
		for i, k := range m.keys {
			if k == nil {
				continue
			}
			ks, ok := k.(Str)
			if !ok {
				p.unsupported("JSON map key")
			}
			ks = p.jstr(ks)
			if _, c := ks.concrete(); !c {
				allc = false
			}
			kvs = append(kvs, kv{ks, m.vals[i]})
		}
		if allc {
			sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.s < kvs[j].k.s })
		}
		for _, x := range kvs {
			n.keys = append(n.keys, x.k)
			n.a = append(n.a, p.jenc(u.Elem(), x.v))
		}
		return n
	case *types.Pointer:
		if c, ok := v.(*Value); ok {
			if c == nil {
				return &jnode{k: 'z'}
			}
			if p.w.mon != nil {
				p.w.mon.access(p, c, false)
			}
			return p.jenc(u.Elem(), *c)
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return &jnode{k: 'z'}
		}
		return p.jenc(i.t, i.v)
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			break
		}
		n := &jnode{k: 'o'}
		for _, f := range p.jfields(t) {
			var fv Value = s
			for _, i := range f.idx {
				fv = fv.(Struct)[i]
			}
			if _, isSt := f.typ.Underlying().(*types.Struct); f.omit && !isSt && p.jempty(f.typ, fv) {
				continue
			}
			if f.quoted {
				p.unsupported("json string option")
			}
			n.keys = append(n.keys, mkstr(f.name))
			n.a = append(n.a, p.jenc(f.typ, fv))
		}
		return n
	case *types.Chan, *types.Signature:
		p.jfail("json: unsupported type: " + t.String())
	}
	p.unsupported(fmt.Sprintf("JSON of %s (%T)", t, v))
	return nil
}

func (p *Path) baseOfObj2(x any) *baseEnc {
	p.e.mmu.Lock()
	defer p.e.mmu.Unlock()
	return p.baseOfObj(x)
}

func (p *Path) lit(s string) []*Term {
	r := make([]*Term, len(s))
	for i := range r {
		r[i] = p.cint(8, uint64(s[i]))
	}
	return r
}

func (p *Path) jquote(s Str) []*Term {
	if c, ok := s.concrete(); ok {
		b, _ := json.Marshal(c)
		return p.lit(string(b))
	}
	out := p.lit(`"`)
	run := []byte{}
	flush := func() {
		if len(run) > 0 {
			b, _ := json.Marshal(string(run))
			out = append(out, p.lit(string(b[1:len(b)-1]))...)
			run = run[:0]
		}
	}
	for _, t := range s.b {
		if t.isConst() {
			run = append(run, byte(t.val))
			continue
		}
		flush()
		out = append(out, t)
	}
	flush()
	return append(out, p.cint(8, '"'))
}

func (p *Path) jtext(n *jnode, prefix, indent string, pretty bool, depth int) []*Term {
	nl := func(out []*Term, d int) []*Term {
		if !pretty {
			return out
		}
		return append(out, p.lit("\n"+prefix+strings.Repeat(indent, d))...)
	}
	switch n.k {
	case 'z':
		return p.lit("null")
	case 'b':
		if n.t.isConst() {
			return p.lit(strconv.FormatBool(n.t.val == 1))
		}
		return p.lit(fmt.Sprintf("<bool%d>", n.t.id))
	case 'n':
		if n.t != nil {
			return p.lit(fmt.Sprintf("<num%d>", n.t.id))
		}
		return p.lit(n.lit)
	case 's':
		return p.jquote(n.s)
	case 't':
		if t, ok := p.goTime(n.tm); ok {
			b, err := t.MarshalJSON()
			if err != nil {
				p.jfail("json: error calling MarshalJSON for type time.Time: " + err.Error())
			}
			return p.lit(string(b))
		}
		return p.lit(fmt.Sprintf("\"<time%08d.%08d>\"", n.tm[0].(*Term).id, n.tm[1].(*Term).id))
	case 'a':
		if len(n.a) == 0 {
			return p.lit("[]")
		}
		out := p.lit("[")
		for i, e := range n.a {
			if i > 0 {
				out = append(out, p.cint(8, ','))
			}
			out = nl(out, depth+1)
			out = append(out, p.jtext(e, prefix, indent, pretty, depth+1)...)
		}
		return append(nl(out, depth), p.cint(8, ']'))
	case 'o':
		if len(n.a) == 0 {
			return p.lit("{}")
		}
		out := p.lit("{")
		for i, e := range n.a {
			if i > 0 {
				out = append(out, p.cint(8, ','))
			}
			out = nl(out, depth+1)
			out = append(out, p.jquote(n.keys[i])...)
			out = append(out, p.cint(8, ':'))
			if pretty {
				out = append(out, p.cint(8, ' '))
			}
			out = append(out, p.jtext(e, prefix, indent, pretty, depth+1)...)
		}
		return append(nl(out, depth), p.cint(8, '}'))
	}
	panic("jtext")
}

func (p *Path) marshal(v Iface, prefix, indent string, pretty bool) (r []*Term, e Iface) {
	defer func() {
		if x := recover(); x != nil {
			if je, ok := x.(jsonError); ok {
				r, e = nil, je.err
				return
			}
			panic(x)
		}
	}()
	var n *jnode
	if v.t == nil {
		n = &jnode{k: 'z'}
	} else {
		n = p.jenc(v.t, v.v)
	}
	r = p.jtext(n, prefix, indent, pretty, 0)
	p.jRemember(r, n)
	return r, Iface{}
}

// ----------------------------------------------------------------- decode

type jsonParser struct {
	p *Path
	b []*Term
	i int
}

func isWS(t *Term) bool {
	return t.isConst() && (t.val == ' ' || t.val == '\n' || t.val == '\t' || t.val == '\r')
}

func (p *Path) jtrim(b []*Term) []*Term {
	for len(b) > 0 && isWS(b[0]) {
		b = b[1:]
	}
	for len(b) > 0 && isWS(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	return b
}

func goNode(x any) *jnode {
	switch v := x.(type) {
	case nil:
		return &jnode{k: 'z'}
	case json.Number:
		return &jnode{k: 'n', lit: v.String()}
	case string:
		return &jnode{k: 's', s: mkstr(v)}
	}
	return nil
}

// jparse parses JSON text; a jsonError panic reports a syntax error.
func (p *Path) jparse(text []*Term) *jnode {
	b := p.jtrim(text)
	if n := p.jRecall(b); n != nil {
		return n
	}
	if c, ok := termsConcrete(b); ok {
		var x any
		if err := json.Unmarshal(c, &x); err != nil {
			p.jfail(err.Error())
		}
	}
	ps := &jsonParser{p: p, b: b}
	n := ps.value()
	ps.ws()
	if ps.i < len(b) {
		p.jfail("invalid character after top-level value")
	}
	return n
}

func (q *jsonParser) ws() {
	for q.i < len(q.b) && isWS(q.b[q.i]) {
		q.i++
	}
}

func (q *jsonParser) peek() byte {
	if q.i >= len(q.b) {
		q.p.jfail("unexpected end of JSON input")
	}
	t := q.b[q.i]
	if !t.isConst() {
		q.p.unsupported("symbolic JSON structure")
	}
	return byte(t.val)
}

func (q *jsonParser) expect(s string) {
	for k := 0; k < len(s); k++ {
		if q.peek() != s[k] {
			q.p.jfail(fmt.Sprintf("invalid character '%c' in literal %s (expecting '%c')", q.peek(), s, s[k]))
		}
		q.i++
	}
}

func (q *jsonParser) value() *jnode {
	q.ws()
	p := q.p
	if n := q.symNumber(); n != nil {
		return n
	}
	switch c := q.peek(); {
	case c == 'n':
		q.expect("null")
		return &jnode{k: 'z'}
	case c == 't':
		q.expect("true")
		return &jnode{k: 'b', t: p.bd.T}
	case c == 'f':
		q.expect("false")
		return &jnode{k: 'b', t: p.bd.F}
	case c == '"':
		return &jnode{k: 's', s: q.str()}
	case c == '-' || '0' <= c && c <= '9':
		st := q.i
		var lit []byte
		for q.i < len(q.b) && q.b[q.i].isConst() && strings.IndexByte("+-.eE0123456789", byte(q.b[q.i].val)) >= 0 {
			lit = append(lit, byte(q.b[q.i].val))
			q.i++
		}
		_ = st
		var num json.Number
		if err := json.Unmarshal(lit, &num); err != nil {
			p.jfail("invalid number literal " + string(lit))
		}
		return &jnode{k: 'n', lit: string(lit)}
	case c == '[':
		q.i++
		n := &jnode{k: 'a'}
		q.ws()
		if q.peek() == ']' {
			q.i++
			return n
		}
		for {
			n.a = append(n.a, q.value())
			q.ws()
			switch q.peek() {
			case ',':
				q.i++
				continue
			case ']':
				q.i++
				return n
			}
			p.jfail(fmt.Sprintf("invalid character '%c' after array element", q.peek()))
		}
	case c == '{':
		q.i++
		n := &jnode{k: 'o'}
		q.ws()
		if q.peek() == '}' {
			q.i++
			return n
		}
		for {
			q.ws()
			if q.peek() != '"' {
				p.jfail(fmt.Sprintf("invalid character '%c' looking for beginning of object key string", q.peek()))
			}
			k := q.str()
			q.ws()
			if q.peek() != ':' {
				p.jfail(fmt.Sprintf("invalid character '%c' after object key", q.peek()))
			}
			q.i++
			n.keys = append(n.keys, k)
			n.a = append(n.a, q.value())
			q.ws()
			switch q.peek() {
			case ',':
				q.i++
				continue
			case '}':
				q.i++
				return n
			}
			p.jfail(fmt.Sprintf("invalid character '%c' after object key:value pair", q.peek()))
		}
	case c == '<':
		p.unsupported("partial symbolic JSON")
	default:
		p.jfail(fmt.Sprintf("invalid character '%c' looking for beginning of value", c))
	}
	return nil
}

// symNumber reads an integer with symbolic digits.
func (q *jsonParser) symNumber() *jnode {
	p := q.p
	i, neg := q.i, false
	if i < len(q.b) && q.b[i].isConst() && q.b[i].val == '-' {
		neg = true
		i++
	}
	st := i
	sym := false
	for i < len(q.b) {
		t := q.b[i]
		if t.isConst() {
			if t.val < '0' || t.val > '9' {
				break
			}
		} else {
			if !p.mustHold(p.inSet(t, func(c byte) bool { return '0' <= c && c <= '9' })) {
				p.unsupported("symbolic JSON structure")
			}
			sym = true
		}
		i++
	}
	if !sym {
		return nil
	}
	if i-st > 18 || i < len(q.b) && q.b[i].isConst() && strings.IndexByte(".eE", byte(q.b[i].val)) >= 0 {
		p.unsupported("symbolic JSON number")
	}
	if (i-st > 1 || neg) && p.branch(p.bd.Eq(q.b[st], p.cint(8, '0'))) {
		if i-st > 1 {
			p.jfail("invalid number literal")
		}
		p.unsupported("symbolic JSON number")
	}
	v := p.cint(64, 0)
	for ; st < i; st++ {
		v = p.bd.Bin(OAdd, p.bd.Bin(OMul, v, p.cint(64, 10)), p.bd.ZExt(p.bd.Bin(OSub, q.b[st], p.cint(8, '0')), 64))
	}
	if neg {
		v = p.bd.Neg(v)
	}
	q.i = i
	return &jnode{k: 'n', t: v, sgn: true}
}

func (q *jsonParser) str() Str {
	p := q.p
	q.i++
	var out []*Term
	var raw []byte
	flush := func() {
		if len(raw) == 0 {
			return
		}
		var s string
		if err := json.Unmarshal([]byte(`"`+string(raw)+`"`), &s); err != nil {
			p.jfail(err.Error())
		}
		out = append(out, p.lit(s)...)
		raw = nil
	}
	for {
		if q.i >= len(q.b) {
			p.jfail("unexpected end of JSON input")
		}
		t := q.b[q.i]
		q.i++
		if !t.isConst() {
			flush()
			if p.branch(p.inSet(t, func(c byte) bool { return c == '"' || c == '\\' || c < 0x20 || c >= 0x80 })) {
				p.unsupported("symbolic JSON string delimiters")
			}
			out = append(out, t)
			continue
		}
		c := byte(t.val)
		switch {
		case c == '"':
			flush()
			return strOf(out)
		case c == '\\':
			raw = append(raw, c)
			if q.i < len(q.b) && q.b[q.i].isConst() {
				raw = append(raw, byte(q.b[q.i].val))
				q.i++
			}
		case c < 0x20:
			p.jfail("invalid character in string literal")
		default:
			raw = append(raw, c)
		}
	}
}

type jdec struct {
	p      *Path
	saved  Iface
	strict bool
}

func (d *jdec) typeErr(what string, t types.Type) {
	if d.saved.t == nil {
		d.saved = d.p.newError("json: cannot unmarshal " + what + " into Go value of type " + types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
}

func (d *jdec) set(c *Value, v Value) {
	if d.p.w.mon != nil {
		d.p.w.mon.access(d.p, c, true)
	}
	storeVal(c, v)
}

func (d *jdec) into(n *jnode, c *Value, t types.Type) {
	p := d.p
	if isTime(t) {
		switch n.k {
		case 'z':
		case 't':
			d.set(c, p.jtime(n.tm))
		case 's':
			s, ok := n.s.concrete()
			if !ok {
				p.unsupported("symbolic time text")
			}
			tm, err := time.Parse(time.RFC3339, s)
			if err != nil {
				panic(jsonError{p.newError(err.Error())})
			}
			d.set(c, p.mkTime(p.cint(64, uint64(tm.Unix())), p.cint(64, uint64(tm.Nanosecond())), tm.Location() == time.UTC))
		default:
			panic(jsonError{p.newError("Time.UnmarshalJSON: input is not a JSON string")})
		}
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == 'z' {
			d.set(c, (*Value)(nil))
			return
		}
		x, ok := (*c).(*Value)
		if !ok {
			p.unsupported("JSON into a native object")
		}
		if x == nil {
			x = cell(p.zero(pt.Elem()))
			if p.w.mon != nil {
				p.w.mon.fresh(x)
			}
			d.set(c, x)
		}
		d.into(n, x, pt.Elem())
		return
	}
	for _, mn := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if _, isIf := t.Underlying().(*types.Interface); isIf {
			break
		}
		if p.hasMethod(types.NewPointer(t), mn) != nil {
			var arg []*Term
			if mn == "UnmarshalText" {
				if n.k == 'z' {
					return
				}
				if n.k != 's' {
					d.typeErr(jkind(n), t)
					return
				}
				arg = p.sbytes(n.s)
			} else {
				arg = p.jtext(n, "", "", false, 0)
				p.jRemember(arg, n)
			}
			e := p.callMethod(Iface{t: types.NewPointer(t), v: c}, mn, p.termsVal(arg)).(Iface)
			if e.t != nil && d.saved.t == nil {
				d.saved = e
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.k == 'z' {
			d.set(c, Iface{})
			return
		}
		if u.NumMethods() > 0 {
			d.typeErr(jkind(n), t)
			return
		}
		d.set(c, p.jany(n))
		return
	case *types.Basic:
		if n.k == 'z' {
			return
		}
		w, sg, isInt := intWidth(u)
		switch {
		case isInt && w == 0:
			if n.k != 'b' {
				d.typeErr(jkind(n), t)
				return
			}
			d.set(c, n.t)
		case isInt:
			if n.k != 'n' {
				d.typeErr(jkind(n), t)
				return
			}
			if n.t != nil {
				x := p.bd.Extract(n.t, 0, w)
				var back *Term
				if sg {
					back = p.bd.SExt(x, 64)
				} else {
					back = p.bd.ZExt(x, 64)
				}
				ok := p.bd.Eq(back, n.t)
				if n.sgn != sg { // the sign bit must be clear
					ok = p.bd.And(ok, p.bd.Cmp(OSle, p.cint(64, 0), n.t))
				}
				if !p.branch(ok) {
					d.typeErr("number", t)
					return
				}
				d.set(c, x)
				return
			}
			if sg {
				i, err := strconv.ParseInt(n.lit, 10, int(w))
				if err != nil {
					d.typeErr("number "+n.lit, t)
					return
				}
				d.set(c, p.cint(w, uint64(i)))
			} else {
				i, err := strconv.ParseUint(n.lit, 10, int(w))
				if err != nil {
					d.typeErr("number "+n.lit, t)
					return
				}
				d.set(c, p.cint(w, i))
			}
		case u.Info()&types.IsFloat != 0:
			if n.k != 'n' {
				d.typeErr(jkind(n), t)
				return
			}
			d.set(c, p.jfloat(n))
		case u.Info()&types.IsString != 0:
			if n.k == 't' {
				d.set(c, strOf(p.jtext(n, "", "", false, 0)))
				return
			}
			if n.k != 's' {
				d.typeErr(jkind(n), t)
				return
			}
			d.set(c, n.s)
		default:
			d.typeErr(jkind(n), t)
		}
		return
	case *types.Slice:
		switch n.k {
		case 'z':
			d.set(c, SliceV{})
		case 'a':
			a := make([]Value, len(n.a))
			for i := range a {
				a[i] = p.zero(u.Elem())
			}
			for i, e := range n.a {
				d.into(e, &a[i], u.Elem())
			}
			d.set(c, SliceV{a})
		case 's':
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out, off := p.baseDecode(p.baseOfObj2(base64.StdEncoding), p.sbytes(n.s))
				if off >= 0 {
					if d.saved.t == nil {
						d.saved = p.newError(fmt.Sprintf("illegal base64 data at input byte %d", off))
					}
					return
				}
				v := p.termsVal(out)
				if v.a == nil {
					v.a = []Value{}
				}
				d.set(c, v)
				return
			}
			d.typeErr("string", t)
		default:
			d.typeErr(jkind(n), t)
		}
		return
	case *types.Array:
		if n.k == 'z' {
			return
		}
		if n.k != 'a' {
			d.typeErr(jkind(n), t)
			return
		}
		arr := (*c).(Array)
		for i := range arr {
			if i < len(n.a) {
				d.into(n.a[i], &arr[i], u.Elem())
			} else {
				arr[i] = p.zero(u.Elem())
			}
		}
		return
	case *types.Map:
		switch n.k {
		case 'z':
			d.set(c, (*MapV)(nil))
		case 'o':
			if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				p.unsupported("JSON map key type")
			}
			m := (*c).(*MapV)
			if m == nil {
				m = newMap()
				d.set(c, m)
			}
			for i, k := range n.keys {
				x := cell(p.zero(u.Elem()))
				d.into(n.a[i], x, u.Elem())
				p.monMap(m, true)
				p.mapSet(m, k, *x)
			}
		default:
			d.typeErr(jkind(n), t)
		}
		return
	case *types.Struct:
		switch n.k {
		case 'z':
		case 'o':
			fs := p.jfields(t)
			for i, k := range n.keys {
				f := d.field(fs, k)
				if f == nil {
					if d.strict {
						ks, _ := k.concrete()
						if d.saved.t == nil {
							d.saved = p.newError("json: unknown field " + strconv.Quote(ks))
						}
					}
					continue
				}
				fc := c
				for _, ix := range f.idx {
					fc = &(*fc).(Struct)[ix]
				}
				if f.quoted {
					p.unsupported("json string option")
				}
				d.into(n.a[i], fc, f.typ)
			}
		default:
			d.typeErr(jkind(n), t)
		}
		return
	}
	p.unsupported("JSON into " + t.String())
}

func jkind(n *jnode) string {
	switch n.k {
	case 'b':
		return "bool"
	case 'n':
		return "number"
	case 's', 't':
		return "string"
	case 'a':
		return "array"
	case 'o':
		return "object"
	}
	return "null"
}

func foldEq(a, b string) bool {
	return strings.EqualFold(a, b)
}

func (d *jdec) field(fs []jfield, k Str) *jfield {
	ks, ok := k.concrete()
	if !ok {
		d.p.unsupported("symbolic JSON field name")
	}
	for i := range fs {
		if fs[i].name == ks {
			return &fs[i]
		}
	}
	for i := range fs {
		if foldEq(fs[i].name, ks) {
			return &fs[i]
		}
	}
	return nil
}

// jtime is the time read back from its JSON text: UTC values stay UTC.
func (p *Path) jtime(tm Struct) Struct {
	r := copyVal(tm).(Struct)
	return r
}

func (p *Path) jfloat(n *jnode) Value {
	if n.t != nil {
		return &FTerm{num: n.t}
	}
	f, err := strconv.ParseFloat(n.lit, 64)
	if err != nil {
		p.jfail("json: cannot unmarshal number " + n.lit + " into Go value of type float64")
	}
	return f
}

func (p *Path) jany(n *jnode) Value {
	switch n.k {
	case 'z':
		return Iface{}
	case 'b':
		return Iface{t: types.Typ[types.Bool], v: n.t}
	case 'n':
		return Iface{t: types.Typ[types.Float64], v: p.jfloat(n)}
	case 's':
		return Iface{t: types.Typ[types.String], v: n.s}
	case 't':
		b := p.jtext(n, "", "", false, 0)
		return Iface{t: types.Typ[types.String], v: strOf(b[1 : len(b)-1])}
	case 'a':
		a := make([]Value, len(n.a))
		for i, e := range n.a {
			a[i] = p.jany(e)
		}
		return Iface{t: types.NewSlice(types.NewInterfaceType(nil, nil)), v: SliceV{a}}
	case 'o':
		m := newMap()
		for i, k := range n.keys {
			p.mapSet(m, k, p.jany(n.a[i]))
		}
		return Iface{t: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), v: m}
	}
	panic("jany")
}

func (p *Path) unmarshal(text []*Term, target Iface, strict bool) (err Iface) {
	return p.unmarshalNode(func() *jnode { return p.jparse(text) }, target, strict)
}

// jprefix parses the first value of the text.
func (p *Path) jprefix(b []*Term) (n *jnode, rest []*Term, err Iface) {
	defer func() {
		if x := recover(); x != nil {
			je, ok := x.(jsonError)
			if !ok {
				panic(x)
			}
			err = je.err
		}
	}()
	if n := p.jRecall(b); n != nil {
		return n, nil, Iface{}
	}
	if c, ok := termsConcrete(b); ok {
		d := json.NewDecoder(bytes.NewReader(c))
		var x any
		if err := d.Decode(&x); err != nil {
			p.jfail(err.Error())
		}
		if n := p.jRecall(p.jtrim(b[:d.InputOffset()])); n != nil {
			return n, b[d.InputOffset():], Iface{}
		}
	}
	ps := &jsonParser{p: p, b: b}
	n = ps.value()
	if m := p.jRecall(p.jtrim(b[:ps.i])); m != nil {
		n = m
	}
	return n, b[ps.i:], Iface{}
}

func (p *Path) unmarshalNode(parse func() *jnode, target Iface, strict bool) (err Iface) {
	defer func() {
		if x := recover(); x != nil {
			if je, ok := x.(jsonError); ok {
				err = je.err
				return
			}
			panic(x)
		}
	}()
	n := parse()
	if target.t == nil {
		return p.newError("json: Unmarshal(nil)")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		return p.newError("json: Unmarshal(non-pointer " + target.t.String() + ")")
	}
	c, ok := target.v.(*Value)
	if !ok {
		p.unsupported("Unmarshal target")
	}
	if c == nil {
		return p.newError("json: Unmarshal(nil " + target.t.String() + ")")
	}
	d := &jdec{p: p, strict: strict}
	d.into(n, c, pt.Elem())
	return d.saved
}

// nodeEq is the formula "the two JSON values are the same".
func (p *Path) nodeEq(a, b *jnode) *Term {
	if a.k != b.k {
		if a.k == 't' && b.k == 's' || a.k == 's' && b.k == 't' {
			x, ok1 := termsConcrete(p.jtext(a, "", "", false, 0))
			y, ok2 := termsConcrete(p.jtext(b, "", "", false, 0))
			if ok1 && ok2 {
				return p.boolv(bytes.Equal(x, y))
			}
		}
		return p.bd.F
	}
	switch a.k {
	case 'z':
		return p.bd.T
	case 'b':
		return p.bd.Eq(a.t, b.t)
	case 'n':
		if a.t == nil && b.t == nil {
			return p.boolv(a.lit == b.lit)
		}
		return p.bd.Eq(p.jint(a), p.jint(b))
	case 's':
		return p.strEq(a.s, b.s)
	case 't':
		return p.bd.And(p.eq(a.tm[0], b.tm[0]), p.eq(a.tm[1], b.tm[1]))
	case 'a':
		if len(a.a) != len(b.a) {
			return p.bd.F
		}
		r := p.bd.T
		for i := range a.a {
			r = p.bd.And(r, p.nodeEq(a.a[i], b.a[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case 'o':
		if len(a.a) != len(b.a) {
			return p.bd.F
		}
		r := p.bd.T
		for i, k := range a.keys {
			f := p.bd.F
			// same position first
			if i < len(b.keys) {
				if e := p.strEq(k, b.keys[i]); e.isTrue() {
					f = p.nodeEq(a.a[i], b.a[i])
					r = p.bd.And(r, f)
					if r.isFalse() {
						return r
					}
					continue
				}
			}
			for j, l := range b.keys {
				if e := p.strEq(k, l); !e.isFalse() {
					f = p.bd.Or(f, p.bd.And(e, p.nodeEq(a.a[i], b.a[j])))
				}
			}
			r = p.bd.And(r, f)
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic("nodeEq")
}

func (p *Path) jint(n *jnode) *Term {
	if n.t != nil {
		return n.t
	}
	if i, err := strconv.ParseInt(n.lit, 10, 64); err == nil {
		return p.cint(64, uint64(i))
	}
	u, _ := strconv.ParseUint(n.lit, 10, 64)
	return p.cint(64, u)
}

// leafContains is the formula "s occurs in some string of the value".
func (p *Path) leafContains(n *jnode, s []*Term) *Term {
	r := p.bd.F
	if n.k == 's' {
		r = p.containsF(p.sbytes(n.s), s)
	}
	for _, k := range n.keys {
		r = p.bd.Or(r, p.containsF(p.sbytes(k), s))
	}
	for _, e := range n.a {
		r = p.bd.Or(r, p.leafContains(e, s))
	}
	return r
}

type jsonEnc struct {
	w              Iface
	prefix, indent string
	pretty         bool
}
type jsonDecoder struct {
	r      Iface
	strict bool
	read   bool    // the reader has been drained
	rest   []*Term // text not decoded yet
}

// fill drains the reader.
func (d *jsonDecoder) fill(p *Path) Iface {
	if !d.read {
		t := p.call(p.e.pkgByPath["io"].Func("ReadAll"), []Value{d.r}).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		d.read, d.rest = true, sliceTerms(t[0])
	}
	return Iface{}
}

func regJSON() {
	regv("encoding/json.Marshal", func(p *Path, a []Value) Value {
		r, e := p.marshal(a[0].(Iface), "", "", false)
		if e.t != nil {
			return Tuple{SliceV{}, e}
		}
		return Tuple{p.termsVal(r), e}
	})
	regv("encoding/json.MarshalIndent", func(p *Path, a []Value) Value {
		r, e := p.marshal(a[0].(Iface), p.pstr(a[1]), p.pstr(a[2]), true)
		if e.t != nil {
			return Tuple{SliceV{}, e}
		}
		return Tuple{p.termsVal(r), e}
	})
	regv("encoding/json.Unmarshal", func(p *Path, a []Value) Value {
		return p.unmarshal(sliceTerms(a[0]), a[1].(Iface), false)
	})
	regv("encoding/json.Valid", func(p *Path, a []Value) (r Value) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(jsonError); ok {
					r = p.bd.F
					return
				}
				panic(x)
			}
		}()
		p.jparse(sliceTerms(a[0]))
		return p.bd.T
	})
	regv("encoding/json.NewEncoder", func(p *Path, a []Value) Value {
		return &NativeObj{kind: "json.Encoder", x: &jsonEnc{w: a[0].(Iface)}}
	})
	regv("encoding/json.NewDecoder", func(p *Path, a []Value) Value {
		return &NativeObj{kind: "json.Decoder", x: &jsonDecoder{r: a[0].(Iface)}}
	})
	both := func(kind, name string, f methodFn) {
		regv("(*encoding/"+kind+")."+name, f)
		nativeMethods[kind+"."+name] = f
	}
	both("json.Encoder", "SetIndent", func(p *Path, a []Value) Value {
		e := p.native(a[0], "json.Encoder").(*jsonEnc)
		e.prefix, e.indent, e.pretty = p.pstr(a[1]), p.pstr(a[2]), true
		return nil
	})
	both("json.Encoder", "SetEscapeHTML", func(p *Path, a []Value) Value { return nil })
	both("json.Encoder", "Encode", func(p *Path, a []Value) Value {
		e := p.native(a[0], "json.Encoder").(*jsonEnc)
		r, err := p.marshal(a[1].(Iface), e.prefix, e.indent, e.pretty)
		if err.t != nil {
			return err
		}
		r = append(r[:len(r):len(r)], p.cint(8, '\n'))
		t := p.callMethod(e.w, "Write", p.termsVal(r)).(Tuple)
		return t[1]
	})
	both("json.Decoder", "DisallowUnknownFields", func(p *Path, a []Value) Value {
		p.native(a[0], "json.Decoder").(*jsonDecoder).strict = true
		return nil
	})
	both("json.Decoder", "Decode", func(p *Path, a []Value) Value {
		d := p.native(a[0], "json.Decoder").(*jsonDecoder)
		if e := d.fill(p); e.t != nil {
			return e
		}
		b := p.jtrim(d.rest)
		if len(b) == 0 {
			return *p.global(p.e.pkgByPath["io"].Var("EOF"))
		}
		n, rest, err := p.jprefix(b)
		if err.t != nil {
			return err
		}
		d.rest = rest
		return p.unmarshalNode(func() *jnode { return n }, a[1].(Iface), d.strict)
	})
	both("json.Decoder", "More", func(p *Path, a []Value) Value {
		d := p.native(a[0], "json.Decoder").(*jsonDecoder)
		if e := d.fill(p); e.t != nil {
			return p.bd.F
		}
		b := p.jtrim(d.rest)
		return p.boolv(len(b) > 0 && !(b[0].isConst() && (b[0].val == ']' || b[0].val == '}')))
	})
	indent := func(p *Path, a []Value, prefix, ind string, pretty bool) (r Value) {
		defer func() {
			if x := recover(); x != nil {
				je, ok := x.(jsonError)
				if !ok {
					panic(x)
				}
				r = je.err
			}
		}()
		n := p.jparse(sliceTerms(a[1]))
		t := p.jtext(n, prefix, ind, pretty, 0)
		p.jRemember(t, n)
		p.call(p.e.method("bytes", "Buffer", "Write"), []Value{a[0], p.termsVal(t)})
		return Iface{}
	}
	regv("encoding/json.Indent", func(p *Path, a []Value) Value {
		return indent(p, a, p.pstr(a[2]), p.pstr(a[3]), true)
	})
	regv("encoding/json.Compact", func(p *Path, a []Value) Value { return indent(p, a, "", "", false) })
	for _, raw := range []string{"encoding/json.RawMessage", "encoding/json/jsontext.Value"} {
		regv("("+raw+").MarshalJSON", func(p *Path, a []Value) Value {
			if s := a[0].(SliceV); s.a == nil {
				return Tuple{p.bytesVal([]byte("null")), Iface{}}
			}
			return Tuple{a[0], Iface{}}
		})
		regv("(*"+raw+").UnmarshalJSON", func(p *Path, a []Value) Value {
			c := p.ptr(a[0])
			*c = copyVal(p.termsVal(sliceTerms(a[1])))
			return Iface{}
		})
	}
}

var _ = unicode.IsUpper
