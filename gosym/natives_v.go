package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The harness API, package v (see /verif/harness/v for the native twin).

func charClass(name string) func(c byte) bool {
	in := func(s string) func(c byte) bool { return func(c byte) bool { return strings.IndexByte(s, c) >= 0 } }
	switch name {
	case "any":
		return func(c byte) bool { return true }
	case "ascii":
		return func(c byte) bool { return c < 0x80 }
	case "print":
		return func(c byte) bool { return 0x20 <= c && c < 0x7f }
	case "graph":
		return func(c byte) bool { return 0x20 < c && c < 0x7f }
	case "lower":
		return func(c byte) bool { return 'a' <= c && c <= 'z' }
	case "upper":
		return func(c byte) bool { return 'A' <= c && c <= 'Z' }
	case "alpha":
		return func(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
	case "digit":
		return func(c byte) bool { return '0' <= c && c <= '9' }
	case "alnum":
		return func(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' }
	case "lalnum":
		return func(c byte) bool { return 'a' <= c && c <= 'z' || '0' <= c && c <= '9' }
	case "uuid":
		return in("0123456789abcdef-")
	}
	if strings.HasPrefix(name, "set:") {
		return in(name[4:])
	}
	panic("unknown class " + name)
}

func (p *Path) inName(n string) string {
	k := p.names["in:"+n]
	p.names["in:"+n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (p *Path) setDefault(t *Term, v uint64) {
	if _, ok := p.model[t.name]; !ok {
		p.model[t.name] = v
	}
}

func (p *Path) newInput(name, kind string, w uint8, sgn bool, def uint64) *Term {
	t := p.fresh(w, name)
	p.setDefault(t, def)
	p.inputs = append(p.inputs, &Input{Name: name, Kind: kind, Terms: []*Term{t}, W: int(w), Sgn: sgn})
	return t
}

func (p *Path) strInput(name, kind, class string, n int) []*Term {
	f := charClass(class)
	def := uint64('a')
	for c := 0; !f(byte(def)) && c < 256; c++ {
		def = uint64(c)
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = p.fresh(8, name+"."+strconv.Itoa(i))
		p.setDefault(ts[i], def)
	}
	p.inputs = append(p.inputs, &Input{Name: name, Kind: kind, Terms: ts})
	if class != "any" {
		c := p.bd.T
		for _, t := range ts {
			c = p.bd.And(c, p.inSet(t, f))
		}
		p.assume(c)
	}
	return ts
}

func (p *Path) intsOf(v Value) []int {
	var r []int
	for _, e := range v.(SliceV).a {
		r = append(r, p.intOf(e))
	}
	return r
}

// testKey is the i-th fixed P-256 key of the harness (same as package v).
func testKey(i int) *ecdsa.PrivateKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif-key-%d", i)))
	c := elliptic.P256()
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

func pad32(b []byte) []byte {
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

func (p *Path) noteStr(v Value) Value {
	i := v.(Iface)
	if i.t == nil {
		return mkstr("<nil>")
	}
	if p.hasMethod(i.t, "Error") != nil {
		return p.callMethod(i, "Error")
	}
	return i.v
}

// render shows a noted value under the path's model.
func (p *Path) render(v Value) string {
	switch x := v.(type) {
	case Str:
		if x.b == nil {
			return strconv.Quote(x.s)
		}
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(p.bd.Eval(t, p.model))
		}
		return strconv.Quote(string(b))
	case *Term:
		n := p.bd.Eval(x, p.model)
		if x.w == 0 {
			return strconv.FormatBool(n == 1)
		}
		return strconv.FormatInt(sx(n, x.w), 10)
	case SliceV:
		var s []string
		for _, e := range x.a {
			s = append(s, p.render(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Array:
		return p.render(SliceV{[]Value(x)})
	case float64:
		return fmt.Sprint(x)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return p.render(x.v)
	}
	return fmt.Sprintf("%T", v)
}

type snap struct{ n *jnode }

func (p *Path) snapOf(v Value) *jnode {
	switch x := v.(type) {
	case *NativeObj:
		return x.x.(*snap).n
	case Iface:
		return x.v.(*NativeObj).x.(*snap).n
	}
	panic(fmt.Sprintf("snapshot %T", v))
}

func regV() {
	v := func(name string, f methodFn) { regv(vPath+"."+name, f) }
	v("Int", func(p *Path, a []Value) Value {
		lo, hi := p.intOf(a[1]), p.intOf(a[2])
		n := p.inName(p.pstr(a[0]))
		t := p.newInput(n, "int", 64, true, uint64(lo))
		p.assume(p.bd.And(p.bd.Cmp(OSle, p.intv(lo), t), p.bd.Cmp(OSle, t, p.intv(hi))))
		return t
	})
	v("Int64", func(p *Path, a []Value) Value { return p.newInput(p.inName(p.pstr(a[0])), "int", 64, true, 0) })
	v("Uint64", func(p *Path, a []Value) Value { return p.newInput(p.inName(p.pstr(a[0])), "int", 64, false, 0) })
	v("Bool", func(p *Path, a []Value) Value { return p.newInput(p.inName(p.pstr(a[0])), "bool", 0, false, 0) })
	v("Byte", func(p *Path, a []Value) Value { return p.newInput(p.inName(p.pstr(a[0])), "int", 8, false, 0) })
	v("Str", func(p *Path, a []Value) Value {
		ls := p.intsOf(a[2])
		n := p.inName(p.pstr(a[0]))
		l := ls[p.choose(len(ls))]
		return strOf(p.strInput(n, "str", p.pstr(a[1]), l))
	})
	v("Bytes", func(p *Path, a []Value) Value {
		r := p.termsVal(p.strInput(p.inName(p.pstr(a[0])), "bytes", "any", p.intOf(a[1])))
		if r.a == nil {
			r.a = []Value{}
		}
		return r
	})
	v("Choose", func(p *Path, a []Value) Value {
		n := p.inName(p.pstr(a[0]))
		k := p.choose(p.intOf(a[1]))
		p.inputs = append(p.inputs, &Input{Name: n, Kind: "choose", Val: k})
		return p.intv(k)
	})
	v("Pick", func(p *Path, a []Value) Value {
		n := p.inName(p.pstr(a[0]))
		o := a[1].(SliceV).a
		k := p.choose(len(o))
		p.inputs = append(p.inputs, &Input{Name: n, Kind: "choose", Val: k})
		return o[k]
	})
	v("Assume", func(p *Path, a []Value) Value { p.assume(a[0].(*Term)); return nil })
	v("Assert", func(p *Path, a []Value) Value {
		p.assert(a[0].(*Term), p.pstr(a[1]), "", nil)
		return nil
	})
	v("Known", func(p *Path, a []Value) Value {
		p.assert(a[3].(*Term), p.pstr(a[0]), p.pstr(a[1]), a[2].(*Term))
		return nil
	})
	v("And", func(p *Path, a []Value) Value {
		r := p.bd.T
		for _, x := range a[0].(SliceV).a {
			r = p.bd.And(r, x.(*Term))
		}
		return r
	})
	v("Or", func(p *Path, a []Value) Value {
		r := p.bd.F
		for _, x := range a[0].(SliceV).a {
			r = p.bd.Or(r, x.(*Term))
		}
		return r
	})
	v("Not", func(p *Path, a []Value) Value { return p.bd.Not(a[0].(*Term)) })
	v("Iff", func(p *Path, a []Value) Value { return p.bd.Eq(a[0].(*Term), a[1].(*Term)) })
	v("Implies", func(p *Path, a []Value) Value { return p.bd.Or(p.bd.Not(a[0].(*Term)), a[1].(*Term)) })
	v("Ite", func(p *Path, a []Value) Value { return p.bd.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	v("In", func(p *Path, a []Value) Value { return p.inSet(a[0].(*Term), charClass(p.pstr(a[1]))) })
	v("Cover", func(p *Path, a []Value) Value { p.covers[p.pstr(a[0])]++; return nil })
	v("Note", func(p *Path, a []Value) Value {
		p.notes = append(p.notes, noteRec{p.inName("note:" + p.pstr(a[0])), p.noteStr(a[1])})
		return nil
	})
	v("Bound", func(p *Path, a []Value) Value { p.bounds[p.pstr(a[0])] = true; return nil })
	v("Thorough", func(p *Path, a []Value) Value { return p.boolv(p.e.thorough) })
	v("Native", func(p *Path, a []Value) Value { return p.bd.F })
	v("TempPath", func(p *Path, a []Value) Value {
		p.w.nextTmp++
		d := fmt.Sprintf("/zz/tmp/d%d", p.w.nextTmp)
		p.w.files[d] = &vfile{dir: true, mode: p.cperm(0700)}
		return mkstr(d + "/" + p.pstr(a[0]))
	})
	v("Home", func(p *Path, a []Value) Value { return mkstr("/zz/home") })
	v("Mkdir", func(p *Path, a []Value) Value {
		p.w.files[clean(p.pstr(a[0]))] = &vfile{dir: true, mode: p.cperm(0700)}
		return nil
	})
	v("WriteFile", func(p *Path, a []Value) Value {
		p.w.files[clean(p.pstr(a[0]))] = &vfile{mode: p.cperm(0600), data: p.sbytes(a[1].(Str))}
		return nil
	})
	v("WriteJSON", func(p *Path, a []Value) Value {
		b, e := p.marshal(a[1].(Iface), "", "  ", true)
		if e.t != nil {
			p.unsupported("WriteJSON: cannot marshal")
		}
		p.w.files[clean(p.pstr(a[0]))] = &vfile{mode: p.cperm(0600), data: b}
		return nil
	})
	v("ReadFile", func(p *Path, a []Value) Value {
		f, ok := p.w.files[clean(p.pstr(a[0]))]
		if !ok || f.dir {
			return Tuple{mkstr(""), p.bd.F}
		}
		return Tuple{strOf(f.data), p.bd.T}
	})
	v("FileMode", func(p *Path, a []Value) Value {
		f, ok := p.w.files[clean(p.pstr(a[0]))]
		if !ok {
			return p.intv(-1)
		}
		return p.bd.ZExt(f.mode, 64)
	})
	v("Chmod", func(p *Path, a []Value) Value {
		f, ok := p.w.files[clean(p.pstr(a[0]))]
		if !ok {
			p.unsupported("Chmod of a missing file")
		}
		f.mode = p.perm(a[1])
		return nil
	})
	v("Widest", func(p *Path, a []Value) Value {
		m := p.cperm(0)
		dir := clean(p.pstr(a[0]))
		for _, n := range p.w.listFiles() {
			if strings.HasPrefix(n, dir+"/") {
				m = p.bd.Bin(OBOr, m, p.w.files[n].mode)
			}
		}
		return p.bd.ZExt(m, 64)
	})
	v("Umask", func(p *Path, a []Value) Value { p.w.umask = p.perm(a[0]); return nil })
	v("Remove", func(p *Path, a []Value) Value { delete(p.w.files, clean(p.pstr(a[0]))); return nil })
	v("FileContains", func(p *Path, a []Value) (r Value) {
		// does the secret occur in a string of any file under the directory
		s := p.sbytes(a[1].(Str))
		res := p.bd.F
		dir := clean(p.pstr(a[0]))
		for _, name := range p.w.listFiles() {
			if name != dir && !strings.HasPrefix(name, dir+"/") {
				continue
			}
			f := p.w.files[name]
			if n := p.jRecall(p.jtrim(f.data)); n != nil {
				res = p.bd.Or(res, p.leafContains(n, s))
			} else {
				res = p.bd.Or(res, p.containsF(f.data, s))
			}
		}
		return res
	})
	v("Snap", func(p *Path, a []Value) Value {
		i := a[0].(Iface)
		save := p.w.mon
		p.w.mon = nil
		n := &jnode{k: 'z'}
		if i.t != nil {
			n = p.jenc(i.t, i.v)
		}
		p.w.mon = save
		return Iface{t: p.nativeType("snapshot"), v: &NativeObj{kind: "snap", x: &snap{n}}}
	})
	v("Full", func(p *Path, a []Value) Value {
		i := a[0].(Iface)
		save := p.w.mon
		p.w.mon = nil
		p.jfull = true
		n := &jnode{k: 'z'}
		if i.t != nil {
			n = p.jenc(i.t, i.v)
		}
		p.w.mon = save
		p.jfull = false
		return Iface{t: p.nativeType("snapshot"), v: &NativeObj{kind: "snap", x: &snap{n}}}
	})
	v("SnapFile", func(p *Path, a []Value) Value {
		f, ok := p.w.files[clean(p.pstr(a[0]))]
		if !ok || f.dir {
			return Iface{t: p.nativeType("snapshot"), v: &NativeObj{kind: "snap", x: &snap{&jnode{k: 's', s: mkstr("<missing>")}}}}
		}
		var n *jnode
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(jsonError); !ok {
						panic(x)
					}
				}
			}()
			n = p.jparse(f.data)
		}()
		if n == nil {
			n = &jnode{k: 's', s: mkstr("<corrupt>")}
		}
		return Iface{t: p.nativeType("snapshot"), v: &NativeObj{kind: "snap", x: &snap{n}}}
	})
	v("Same", func(p *Path, a []Value) Value { return p.nodeEq(p.snapOf(a[0]), p.snapOf(a[1])) })
	v("Has", func(p *Path, a []Value) Value { return p.leafContains(p.snapOf(a[0]), p.sbytes(a[1].(Str))) })
	v("HashWork", func(p *Path, a []Value) Value { return p.intv(p.w.bcWork) })
	v("Hash", func(p *Path, a []Value) Value {
		h := p.bcryptHash(p.sbytes(a[0].(Str)), 4)
		p.w.bcWork -= 1 << 4
		return h
	})
	v("KeyX", func(p *Path, a []Value) Value { return p.bytesVal(pad32(testKey(p.intOf(a[0])).X.Bytes())) })
	v("KeyY", func(p *Path, a []Value) Value { return p.bytesVal(pad32(testKey(p.intOf(a[0])).Y.Bytes())) })
	v("Sign", func(p *Path, a []Value) Value {
		k := testKey(p.intOf(a[0]))
		n := len(p.w.sigs) + 1
		sig := make([]byte, 70)
		for i := range sig {
			sig[i] = byte(i*37 + n*101)
		}
		copy(sig, []byte{0x30, 68, 2, 32})
		e := &sigEntry{x: p.lit(string(pad32(k.X.Bytes()))), y: p.lit(string(pad32(k.Y.Bytes()))),
			data: append([]*Term(nil), sliceTerms(a[1])...), sig: p.lit(string(sig))}
		p.w.sigs = append(p.w.sigs, e)
		return p.bytesVal(sig)
	})
	v("ClockStep", func(p *Path, a []Value) Value {
		p.w.clockMax = int(a[0].(*Term).val)
		return nil
	})
	v("SymClock", func(p *Path, a []Value) Value { p.w.clockMode = 1; return nil })
	v("SymRand", func(p *Path, a []Value) Value { p.w.randMode = 1; return nil })
	v("RandConst", func(p *Path, a []Value) Value { p.w.randMode, p.w.randConst = 2, p.intOf(a[0]); return nil })
	v("RandFresh", func(p *Path, a []Value) Value { p.w.randMode = 0; return nil })
	v("NextUUID", func(p *Path, a []Value) Value {
		b := sliceTerms(a[0])
		if len(b) != 16 {
			p.unsupported("NextUUID wants 16 bytes")
		}
		u := make(Array, 16)
		for i, t := range b {
			u[i] = t
		}
		p.w.uuidQueue = append(p.w.uuidQueue, u)
		return nil
	})
	v("FaultFS", func(p *Path, a []Value) Value {
		p.w.fsOn, p.w.fsBudget, p.w.fsCount = true, p.intOf(a[0]), 0
		p.w.fsCrash = p.branch(a[1].(*Term))
		return nil
	})
	v("FaultOff", func(p *Path, a []Value) Value {
		p.w.fsOn = false
		return nil
	})
	v("Faults", func(p *Path, a []Value) Value { return p.intv(p.w.faults) })
	// Crashable runs f and reports whether the process died in it. The
	// memory of the dead process is gone; files stay.
	reg(vPath+".Crashable", func(p *Path, fn *ssa.Function, a []Value) (r Value, done bool) {
		p.w.crashOK++
		depth := len(p.frames)
		defer func() {
			p.w.crashOK--
			if x := recover(); x != nil {
				if _, ok := x.(crashSignal); ok {
					p.frames = p.frames[:depth]
					for c := range p.w.locks {
						delete(p.w.locks, c)
					}
					p.w.fsOn = false
					r, done = p.bd.T, true
					return
				}
				panic(x)
			}
		}()
		p.call(a[0], nil)
		return p.bd.F, true
	})
	// Both runs two operations concurrently, under every schedule of their
	// critical sections.
	v("Both", func(p *Path, a []Value) Value {
		s := p.sched()
		p.w.both = true
		x := &gor{wake: make(chan struct{}), fn: a[1]}
		y := &gor{wake: make(chan struct{}), fn: a[2]}
		s.all = append(s.all, x, y)
		p.block("Both", func() bool { return x.done && y.done })
		for _, l := range p.w.locks {
			if l.w > 0 || l.r > 0 {
				p.deadlock("an operation returns with a lock held")
			}
		}
		return nil
	})
	v("Race", func(p *Path, a []Value) Value { p.race(p.pstr(a[0]), a[1], a[2]); return nil })
}

var _ = types.Typ
