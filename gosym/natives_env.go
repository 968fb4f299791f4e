package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ sync

func (p *Path) lockOf(v Value) (*Value, *lockState) {
	c := p.ptr(v)
	l := p.w.locks[c]
	if l == nil {
		l = &lockState{}
		p.w.locks[c] = l
	}
	return c, l
}

func (p *Path) deadlock(what string) {
	p.violation("deadlock", "", p.model, what+" @ "+p.where())
	p.viol[len(p.viol)-1].Hang = true
	st := p.asserts["deadlock"]
	if st == nil {
		st = &AssertStat{}
		p.asserts["deadlock"] = st
	}
	st.Checked++
	st.Violated++
	panic(pathEnd{"stop", ""})
}

func regSync() {
	lock := func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		p.yieldAt(true)
		p.block("Lock of a mutex that is already held", func() bool { return l.w == 0 && l.r == 0 })
		l.w++
		p.monLock(c, 2, true)
		return nil
	}
	unlock := func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		if l.w == 0 {
			p.gopanicStr("fatal error: sync: unlock of unlocked mutex")
		}
		l.w--
		p.monLock(c, 2, false)
		p.yieldAt(false)
		return nil
	}
	rlock := func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		p.yieldAt(true)
		p.block("RLock of a mutex that is write-locked", func() bool { return l.w == 0 })
		l.r++
		p.monLock(c, 1, true)
		return nil
	}
	runlock := func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		if l.r == 0 {
			p.gopanicStr("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		l.r--
		p.monLock(c, 1, false)
		p.yieldAt(false)
		return nil
	}
	try := func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		if l.w > 0 || l.r > 0 {
			return p.bd.F
		}
		l.w++
		p.monLock(c, 2, true)
		return p.bd.T
	}
	for _, t := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		regv("(*"+t+").Lock", lock)
		regv("(*"+t+").Unlock", unlock)
		regv("(*"+t+").TryLock", try)
	}
	regv("(*sync.RWMutex).RLock", rlock)
	regv("(*sync.RWMutex).RUnlock", runlock)
	regv("(*sync.Once).Do", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		if p.w.locks[c] != nil {
			return nil
		}
		p.w.locks[c] = &lockState{}
		save := p.w.mon
		p.w.mon = nil // initialisation is ordered before every other use
		p.call(a[1], nil)
		p.w.mon = save
		return nil
	})
	last := func(p *Path, v Value) *Value {
		c := p.ptr(v)
		for {
			s, ok := (*c).(Struct)
			if !ok {
				return c
			}
			c = &s[len(s)-1]
		}
	}
	type af struct {
		t string
		w uint8
	}
	for _, x := range []af{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		load := func(p *Path, a []Value) Value { return *last(p, a[0]) }
		store := func(p *Path, a []Value) Value { *last(p, a[0]) = a[1]; return nil }
		add := func(p *Path, a []Value) Value {
			c := last(p, a[0])
			*c = p.bd.Bin(OAdd, (*c).(*Term), a[1].(*Term))
			return *c
		}
		swap := func(p *Path, a []Value) Value { c := last(p, a[0]); o := *c; *c = a[1]; return o }
		cas := func(p *Path, a []Value) Value {
			c := last(p, a[0])
			if p.branch(p.bd.Eq((*c).(*Term), a[1].(*Term))) {
				*c = a[2]
				return p.bd.T
			}
			return p.bd.F
		}
		for n, f := range map[string]methodFn{"Load": load, "Store": store, "Add": add, "Swap": swap, "CompareAndSwap": cas} {
			regv("(*sync/atomic."+x.t+")."+n, f)
			regv("sync/atomic."+n+x.t, f)
		}
	}
	regv("(*sync/atomic.Bool).Load", func(p *Path, a []Value) Value {
		return p.bd.Not(p.bd.Eq((*last(p, a[0])).(*Term), p.cint(32, 0)))
	})
	regv("(*sync/atomic.Bool).Store", func(p *Path, a []Value) Value {
		*last(p, a[0]) = p.bd.Ite(a[1].(*Term), p.cint(32, 1), p.cint(32, 0))
		return nil
	})
	regv("runtime.GC", func(p *Path, a []Value) Value { return nil })
	regv("runtime.Gosched", func(p *Path, a []Value) Value { return nil })
	regv("runtime.KeepAlive", func(p *Path, a []Value) Value { return nil })
}

// ------------------------------------------------------------------ time

const unixToInternal = 62135596800

// the concrete clock starts here and advances by a millisecond per reading
const clockBase = 1600000000

func (p *Path) now() (*Term, *Term) {
	w := p.w
	if w.clockMode == 1 {
		if w.clockT == nil {
			w.clockT = p.cint(64, uint64(clockBase))
		}
		d := p.fresh(16, "clock")
		p.setDefault(d, 1)
		if w.clockMax > 0 {
			p.assume(p.bd.Cmp(OUle, d, p.cint(16, uint64(w.clockMax))))
		}
		p.inputs = append(p.inputs, &Input{Name: "clock:", Kind: "int", Terms: []*Term{d}, W: 16})
		w.clockT = p.bd.Bin(OAdd, w.clockT, p.bd.ZExt(d, 64))
		return w.clockT, p.cint(64, 0)
	}
	w.clockNow++
	return p.cint(64, uint64(clockBase+w.clockNow/1000)), p.cint(64, uint64(w.clockNow%1000*1000000))
}

func (p *Path) mkTime(sec *Term, nsec *Term, utc bool) Struct {
	tp := p.e.pkgByPath["time"]
	var loc Value = (*Value)(nil)
	if !utc {
		loc = p.global(tp.Var("localLoc"))
	}
	return Struct{nsec, p.bd.Bin(OAdd, sec, p.cint(64, unixToInternal)), loc}
}

// timeParts gives the seconds since 1970 and nanoseconds.
func (p *Path) timeParts(s Struct) (*Term, *Term) {
	wall := s[0].(*Term)
	if !wall.isConst() || wall.val>>63 != 0 {
		p.unsupported("time with monotonic reading")
	}
	return p.bd.Bin(OSub, s[1].(*Term), p.cint(64, unixToInternal)), wall
}

func (p *Path) goTime(s Struct) (time.Time, bool) {
	sec, ns := p.timeParts(s)
	if !sec.isConst() || !ns.isConst() {
		return time.Time{}, false
	}
	return time.Unix(int64(sec.val), int64(ns.val)).UTC(), true
}

func regTime() {
	regv("time.Now", func(p *Path, a []Value) Value { sec, ns := p.now(); return p.mkTime(sec, ns, false) })
	regv("time.Sleep", func(p *Path, a []Value) Value { return nil })
	regv("time.runtimeNano", func(p *Path, a []Value) Value { return p.cint(64, 1) })
	fmtT := func(p *Path, a []Value) Value {
		t, ok := p.goTime(a[0].(Struct))
		if !ok {
			return p.opaqueText("time", a[0])
		}
		lay := "2006-01-02 15:04:05.999999999 -0700 MST"
		if len(a) > 1 {
			lay = p.pstr(a[1])
		}
		return mkstr(t.Format(lay))
	}
	regv("(time.Time).Format", fmtT)
	regv("(time.Time).String", fmtT)
	regv("time.Parse", func(p *Path, a []Value) Value {
		t, err := time.Parse(p.pstr(a[0]), p.pstr(a[1]))
		if err != nil {
			return Tuple{p.mkTime(p.cint(64, 0), p.cint(64, 0), true), p.newError(err.Error())}
		}
		return Tuple{p.mkTime(p.cint(64, uint64(t.Unix())), p.cint(64, uint64(t.Nanosecond())), true), Iface{}}
	})
	regv("(time.Duration).String", func(p *Path, a []Value) Value {
		if t := a[0].(*Term); t.isConst() {
			return mkstr(time.Duration(int64(t.val)).String())
		}
		return p.opaqueText("duration", a[0])
	})
	reg("(time.Time).Add", func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		d := a[1].(*Term)
		if d.isConst() {
			return nil, false
		}
		if d.op == OMul {
			x, k := d.a, d.b
			if x.isConst() {
				x, k = k, x
			}
			kk := sx(k.val, 64)
			if k.isConst() && kk%1000000000 == 0 {
				lim := p.cint(64, 1<<32)
				if p.mustHold(p.bd.And(p.bd.Cmp(OSlt, p.bd.Neg(lim), x), p.bd.Cmp(OSlt, x, lim))) {
					s := copyVal(a[0]).(Struct)
					s[1] = p.bd.Bin(OAdd, s[1].(*Term), p.bd.Bin(OMul, x, p.cint(64, uint64(kk/1000000000))))
					return s, true
				}
			}
		}
		return nil, false
	})
}

// ------------------------------------------------------------------ rand

// a generator seeded by the code: its stream is a function of the seed
type randObj struct{ seed *Term }

func (p *Path) randObjOf(v Value) *randObj {
	st, ok := p.load(v).(Struct)
	if !ok || len(st) == 0 {
		return nil
	}
	if o, ok := st[0].(*NativeObj); ok {
		if r, ok := o.x.(*randObj); ok {
			return r
		}
	}
	return nil
}

func (p *Path) randnOf(o *randObj, n *Term) *Term {
	if o == nil || p.w.randMode != 0 || o.seed == nil || !o.seed.isConst() || !n.isConst() || n.val == 0 {
		return p.randn(n)
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d", o.seed.val, p.w.randCtr[o])
	p.w.randCtr[o]++
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return p.cint(64, x%n.val)
}

func (p *Path) randn(n *Term) *Term {
	if n.w < 64 {
		p.unsupported("rand width")
	}
	if p.branch(p.bd.Cmp(OSle, n, p.cint(64, 0))) {
		p.gopanicStr("invalid argument to Intn")
	}
	switch p.w.randMode {
	case 1:
		w := uint8(64)
		if n.isConst() && n.val < 128 {
			w = 8
		}
		x := p.bd.ZExt(p.fresh(w, "rand"), 64)
		p.inputs = append(p.inputs, &Input{Name: "rand:", Kind: "int", Terms: []*Term{x}, W: 64, Sgn: true})
		p.assume(p.bd.Cmp(OUlt, x, n))
		return x
	case 2:
		if p.w.randConst > 0 {
			p.w.randConst--
			return p.cint(64, 0)
		}
	}
	if !n.isConst() {
		n = p.cint(64, p.concretize(n))
	}
	return p.cint(64, p.w.rnd()%n.val)
}

func regRand() {
	intn := func(i int) methodFn {
		return func(p *Path, a []Value) Value { return p.randn(a[i].(*Term)) }
	}
	regv("math/rand.Intn", intn(0))
	regv("math/rand.Int63n", intn(0))
	rintn := func(p *Path, a []Value) Value { return p.randnOf(p.randObjOf(a[0]), a[1].(*Term)) }
	regv("(*math/rand.Rand).Intn", rintn)
	regv("(*math/rand.Rand).Int63n", rintn)
	regv("math/rand/v2.IntN", intn(0))
	regv("math/rand/v2.Int64N", intn(0))
	regv("math/rand/v2.N", intn(0))
	i32 := func(i int) methodFn {
		return func(p *Path, a []Value) Value { return p.bd.Extract(p.randn(p.bd.SExt(a[i].(*Term), 64)), 0, 32) }
	}
	regv("math/rand.Int31n", i32(0))
	regv("(*math/rand.Rand).Int31n", i32(1))
	max63 := func(p *Path, a []Value) Value { return p.randn(p.cint(64, 1<<62)) }
	for _, n := range []string{"Int", "Int63"} {
		regv("math/rand."+n, max63)
		regv("(*math/rand.Rand)."+n, max63)
	}
	regv("math/rand.Seed", func(p *Path, a []Value) Value { return nil })
	regv("(*math/rand.Rand).Seed", func(p *Path, a []Value) Value { return nil })
	regv("math/rand.NewSource", func(p *Path, a []Value) Value {
		return Iface{t: types.NewPointer(p.e.namedType("math/rand", "rngSource")), v: &NativeObj{kind: "rand.Source", x: a[0].(*Term)}}
	})
	regv("math/rand.New", func(p *Path, a []Value) Value {
		o := &randObj{}
		if n, ok := a[0].(Iface).v.(*NativeObj); ok {
			o.seed, _ = n.x.(*Term)
		}
		return cell(Struct{&NativeObj{kind: "rand.Rand", x: o}})
	})
	regv("math/rand.Float64", func(p *Path, a []Value) Value { return float64(p.w.rnd()%1000) / 1000 })
	perm := func(p *Path, a []Value) Value { p.unsupported("rand.Perm"); return nil }
	regv("math/rand.Perm", perm)
	fill := func(p *Path, b SliceV) Value {
		for i := range b.a {
			if p.w.randMode == 1 {
				b.a[i] = p.fresh(8, "crand")
			} else {
				b.a[i] = p.cint(8, p.w.rnd()&255)
			}
		}
		return Tuple{p.intv(len(b.a)), Iface{}}
	}
	regv("crypto/rand.Read", func(p *Path, a []Value) Value { return fill(p, a[0].(SliceV)) })
	regv("math/rand.Read", func(p *Path, a []Value) Value { return fill(p, a[0].(SliceV)) })
	nativeMethods["rand.Reader.Read"] = func(p *Path, a []Value) Value { return fill(p, a[1].(SliceV)) }
	regv("github.com/satori/go.uuid.NewV4", func(p *Path, a []Value) Value {
		if len(p.w.uuidQueue) > 0 {
			u := p.w.uuidQueue[0]
			p.w.uuidQueue = p.w.uuidQueue[1:]
			return copyVal(u)
		}
		r := make(Array, 16)
		for i := range r {
			x := p.w.rnd() & 255
			switch i {
			case 6:
				x = x&0x0f | 0x40
			case 8:
				x = x&0x3f | 0x80
			}
			r[i] = p.cint(8, x)
		}
		return r
	})
}

// ------------------------------------------------------------------ sort

func regSort() {
	ins := func(p *Path, s SliceV, less func(a, b Value) *Term) {
		for i := 1; i < len(s.a); i++ {
			for j := i; j > 0 && p.branch(less(s.a[j], s.a[j-1])); j-- {
				s.a[j], s.a[j-1] = s.a[j-1], s.a[j]
			}
		}
	}
	strs := func(p *Path, a []Value) Value {
		ins(p, a[0].(SliceV), func(x, y Value) *Term { return p.strLt(x.(Str), y.(Str)) })
		return nil
	}
	regv("sort.Strings", strs)
	generic := func(p *Path, a []Value) Value {
		ins(p, a[0].(SliceV), func(x, y Value) *Term {
			if s, ok := x.(Str); ok {
				return p.strLt(s, y.(Str))
			}
			return p.bd.Cmp(OSlt, x.(*Term), y.(*Term))
		})
		return nil
	}
	regv("slices.Sort", generic)
	regv("sort.Ints", generic)
	sl := func(p *Path, a []Value) Value {
		s := a[0].(Iface).v.(SliceV)
		for i := 1; i < len(s.a); i++ {
			for j := i; j > 0 && p.branch(p.call(a[1], []Value{p.intv(j), p.intv(j - 1)}).(*Term)); j-- {
				s.a[j], s.a[j-1] = s.a[j-1], s.a[j]
			}
		}
		return nil
	}
	regv("sort.Slice", sl)
	regv("sort.SliceStable", sl)
	sf := func(p *Path, a []Value) Value {
		ins(p, a[0].(SliceV), func(x, y Value) *Term {
			return p.bd.Cmp(OSlt, p.call(a[1], []Value{copyVal(x), copyVal(y)}).(*Term), p.cint(64, 0))
		})
		return nil
	}
	regv("slices.SortFunc", sf)
	regv("slices.SortStableFunc", sf)
}

// ------------------------------------------------------------------- fmt

// opaqueText stands for text the model does not render; it is concrete, so
// that programs merely passing it on keep working.
func (p *Path) opaqueText(kind string, v Value) Str {
	p.w.opaque++
	return mkstr(fmt.Sprintf("<%s#%d>", kind, p.w.opaque))
}

func (p *Path) ifaceArgs(v Value) []Iface {
	var r []Iface
	for _, e := range v.(SliceV).a {
		r = append(r, e.(Iface))
	}
	return r
}

func (p *Path) errorOrString(a Iface) (Str, bool) {
	if a.t == nil {
		return Str{}, false
	}
	nilPtr := false
	if c, ok := a.v.(*Value); ok && c == nil {
		nilPtr = true
	}
	for _, n := range []string{"Error", "String"} {
		m := p.hasMethod(a.t, n)
		if m == nil {
			if o, ok := a.v.(*NativeObj); ok && o != nil {
				if _, ok := nativeMethods[o.kind+"."+n]; ok {
					return p.callMethod(a, n).(Str), true
				}
			}
			continue
		}
		sig := m.Signature()
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if nilPtr {
			return mkstr("<nil>"), true
		}
		return p.callMethod(a, n).(Str), true
	}
	return Str{}, false
}

func (p *Path) fmtV(t types.Type, v Value, verb byte, plus bool, depth int) Str {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case Str:
			if verb == 'q' {
				return p.quote(x)
			}
			if verb == 'x' || verb == 'X' {
				return strOf(p.hexTerms(p.sbytes(x), verb == 'X'))
			}
			if verb == 'd' {
				return p.concatAll(mkstr("%!d(string="), x, mkstr(")"))
			}
			return x
		case *Term:
			w, sgn, _ := intWidth(u)
			if w == 0 {
				if verb != 'v' && verb != 't' {
					return mkstr("%!" + string(verb) + "(bool)")
				}
				if p.branch(x) {
					return mkstr("true")
				}
				return mkstr("false")
			}
			switch verb {
			case 'v', 'd':
				return p.decimal(x, sgn)
			case 'x', 'X', 'o', 'b':
				if x.isConst() {
					if sgn {
						return mkstr(fmt.Sprintf("%"+string(verb), sx(x.val, x.w)))
					}
					return mkstr(fmt.Sprintf("%"+string(verb), x.val))
				}
			case 's':
				return p.concatAll(mkstr("%!s("+u.Name()+"="), p.decimal(x, sgn), mkstr(")"))
			case 'q', 'c':
				if x.isConst() {
					return mkstr(fmt.Sprintf("%"+string(verb), x.val))
				}
			}
		case float64:
			return mkstr(fmt.Sprintf("%"+string(verb), x))
		case *FTerm:
			if x.den == nil {
				return p.decimal(x.num, true)
			}
		}
	case *types.Pointer:
		c, ok := v.(*Value)
		if ok && c == nil {
			return mkstr("<nil>")
		}
		if st, isS := u.Elem().Underlying().(*types.Struct); ok && isS && depth == 0 && verb != 'p' {
			if s, ok := (*c).(Struct); ok {
				return p.concat(mkstr("&"), p.fmtStruct(st, s, verb, plus, 1))
			}
		}
		return mkstr("0xc000012345")
	case *types.Struct:
		if s, ok := v.(Struct); ok {
			return p.fmtStruct(u, s, verb, plus, depth+1)
		}
	case *types.Slice:
		if s, ok := v.(SliceV); ok {
			if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
				switch verb {
				case 's':
					return strOf(sliceTerms(s))
				case 'x', 'X':
					return strOf(p.hexTerms(sliceTerms(s), verb == 'X'))
				case 'q':
					return p.quote(strOf(sliceTerms(s)))
				}
			}
			r := mkstr("[")
			for i, e := range s.a {
				if i > 0 {
					r = p.concat(r, mkstr(" "))
				}
				r = p.concat(r, p.fmtElem(u.Elem(), e, verb, plus, depth+1))
			}
			return p.concat(r, mkstr("]"))
		}
	case *types.Array:
		if s, ok := v.(Array); ok {
			if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 && (verb == 'x' || verb == 'X') {
				return strOf(p.hexTerms(sliceTerms(s), verb == 'X'))
			}
			r := mkstr("[")
			for i, e := range s {
				if i > 0 {
					r = p.concat(r, mkstr(" "))
				}
				r = p.concat(r, p.fmtElem(u.Elem(), e, verb, plus, depth+1))
			}
			return p.concat(r, mkstr("]"))
		}
	case *types.Map:
		if m, ok := v.(*MapV); ok {
			r := mkstr("map[")
			n := 0
			if m != nil {
				for i, k := range m.keys {
					if k == nil {
						continue
					}
					if n > 0 {
						r = p.concat(r, mkstr(" "))
					}
					n++
					r = p.concatAll(r, p.fmtElem(u.Key(), k, verb, plus, depth+1), mkstr(":"), p.fmtElem(u.Elem(), m.vals[i], verb, plus, depth+1))
				}
			}
			return p.concat(r, mkstr("]"))
		}
	case *types.Interface:
		a, ok := v.(Iface)
		if ok && a.t == nil {
			return mkstr("<nil>")
		}
		if ok {
			return p.fmtElem(a.t, a.v, verb, plus, depth)
		}
	case *types.Signature:
		return mkstr("0x47f000")
	}
	return p.opaqueText("fmt", v)
}

func (p *Path) fmtElem(t types.Type, v Value, verb byte, plus bool, depth int) Str {
	if verb == 'v' || verb == 's' || verb == 'q' {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if s, ok := p.errorOrString(Iface{t, v}); ok {
				if verb == 'q' {
					return p.quote(s)
				}
				return s
			}
		}
	}
	return p.fmtV(t, v, verb, plus, depth)
}

func (p *Path) fmtStruct(st *types.Struct, s Struct, verb byte, plus bool, depth int) Str {
	r := mkstr("{")
	for i := 0; i < st.NumFields(); i++ {
		if i > 0 {
			r = p.concat(r, mkstr(" "))
		}
		if plus {
			r = p.concat(r, mkstr(st.Field(i).Name()+":"))
		}
		if !st.Field(i).Exported() {
			r = p.concat(r, p.fmtV(st.Field(i).Type(), s[i], verb, plus, depth))
		} else {
			r = p.concat(r, p.fmtElem(st.Field(i).Type(), s[i], verb, plus, depth))
		}
	}
	return p.concat(r, mkstr("}"))
}

// sprintf renders a format whose text is concrete; a symbolic format (an
// error text used as a format) is rendered verbatim when it provably holds no
// '%'.
func (p *Path) sprintf(f Str, args []Iface) Str {
	fs, ok := f.concrete()
	if !ok {
		c := p.bd.T
		for _, t := range f.b {
			c = p.bd.And(c, p.bd.Not(p.bd.Eq(t, p.cint(8, '%'))))
		}
		if !p.branch(c) {
			p.unsupported("symbolic format")
		}
		r := f
		if len(args) > 0 {
			r = p.concat(r, mkstr("%!(EXTRA args)"))
		}
		return r
	}
	out := mkstr("")
	n := 0
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = p.concat(out, mkstr(fs[i:]))
			break
		}
		out = p.concat(out, mkstr(fs[i:i+j]))
		i += j + 1
		if i >= len(fs) {
			out = p.concat(out, mkstr("%!(NOVERB)"))
			break
		}
		zero, minus, plus, sharp, space := false, false, false, false, false
	flags:
		for ; i < len(fs); i++ {
			switch fs[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case ' ':
				space = true
			default:
				break flags
			}
		}
		width, prec := 0, -1
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			width = width*10 + int(fs[i]-'0')
			i++
		}
		if i < len(fs) && fs[i] == '*' {
			i++
			if n < len(args) {
				width = p.intOf(args[n].v)
				n++
			}
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			prec = 0
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				prec = prec*10 + int(fs[i]-'0')
				i++
			}
		}
		if i >= len(fs) {
			out = p.concat(out, mkstr("%!(NOVERB)"))
			break
		}
		verb, sz := utf8.DecodeRuneInString(fs[i:])
		i += sz
		if verb == '%' {
			out = p.concat(out, mkstr("%"))
			continue
		}
		if n >= len(args) {
			out = p.concat(out, mkstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		s := p.fmtArg(a, byte(verb), zero, plus, sharp, space, width, prec)
		for k := s.len(); k < width; k++ { // widths count runes; ASCII here
			pad := " "
			if zero && !minus {
				pad = "0"
			}
			if minus {
				s = p.concat(s, mkstr(pad))
			} else {
				s = p.concat(mkstr(pad), s)
			}
		}
		out = p.concat(out, s)
	}
	if n < len(args) {
		ex := mkstr("%!(EXTRA ")
		for k := n; k < len(args); k++ {
			if k > n {
				ex = p.concat(ex, mkstr(", "))
			}
			ts := "<nil>"
			if args[k].t != nil {
				ts = types.TypeString(args[k].t, func(q *types.Package) string { return q.Name() })
				ex = p.concatAll(ex, mkstr(ts+"="), p.fmtArg(args[k], 'v', false, false, false, false, 0, -1))
				continue
			}
			ex = p.concat(ex, mkstr(ts))
		}
		out = p.concatAll(out, ex, mkstr(")"))
	}
	return out
}

func (p *Path) fmtArg(a Iface, verb byte, zero, plus, sharp, space bool, width, prec int) Str {
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'T' {
		if a.t == nil {
			return mkstr("<nil>")
		}
		return mkstr(types.TypeString(a.t, func(q *types.Package) string { return q.Name() }))
	}
	if a.t == nil {
		if verb == 'v' {
			return mkstr("<nil>")
		}
		return mkstr("%!" + string(verb) + "(<nil>)")
	}
	if sharp || prec >= 0 {
		// let the real fmt handle concrete scalars
		var g any
		switch x := a.v.(type) {
		case Str:
			if c, ok := x.concrete(); ok {
				g = c
			}
		case *Term:
			if x.isConst() && x.w > 0 {
				g = sx(x.val, x.w)
			}
		case float64:
			g = x
		}
		if g != nil {
			f := "%"
			if sharp {
				f += "#"
			}
			if prec >= 0 {
				f += "." + strconv.Itoa(prec)
			}
			return mkstr(fmt.Sprintf(f+string(verb), g))
		}
		return p.opaqueText("fmt", a.v)
	}
	if zero && width > 0 && verb == 'd' {
		if t, ok := a.v.(*Term); ok && !t.isConst() {
			_, sgn, _ := intWidth(a.t)
			x := t
			if x.w < 64 {
				if sgn {
					x = p.bd.SExt(x, 64)
				} else {
					x = p.bd.ZExt(x, 64)
				}
			}
			lim := uint64(1)
			for i := 0; i < width && i < 18; i++ {
				lim *= 10
			}
			if p.branch(p.bd.Cmp(OUlt, x, p.cint(64, lim))) {
				return strOf(p.digits(x, width))
			}
		}
	}
	return p.fmtElem(a.t, a.v, verb, plus, 0)
}

func regFmt() {
	regv("fmt.Sprintf", func(p *Path, a []Value) Value { return p.sprintf(a[0].(Str), p.ifaceArgs(a[1])) })
	sprint := func(p *Path, args []Iface, sp bool) Str {
		r := mkstr("")
		for i, x := range args {
			if i > 0 {
				add := sp
				if !sp {
					_, s1 := args[i-1].v.(Str)
					_, s2 := x.v.(Str)
					add = !s1 && !s2
				}
				if add {
					r = p.concat(r, mkstr(" "))
				}
			}
			r = p.concat(r, p.fmtArg(x, 'v', false, false, false, false, 0, -1))
		}
		return r
	}
	regv("fmt.Sprint", func(p *Path, a []Value) Value { return sprint(p, p.ifaceArgs(a[0]), false) })
	regv("fmt.Sprintln", func(p *Path, a []Value) Value {
		return p.concat(sprint(p, p.ifaceArgs(a[0]), true), mkstr("\n"))
	})
	regv("fmt.Errorf", func(p *Path, a []Value) Value {
		args := p.ifaceArgs(a[1])
		s := p.sprintf(a[0].(Str), args)
		fs, _ := a[0].(Str).concrete()
		if n := strings.Count(fs, "%w"); n == 1 {
			k := strings.Count(strings.ReplaceAll(fs[:strings.Index(fs, "%w")], "%%", ""), "%")
			if k < len(args) && args[k].t != nil && p.hasMethod(args[k].t, "Error") != nil {
				t := types.NewPointer(p.e.namedType("fmt", "wrapError"))
				return Iface{t: t, v: cell(Struct{s, args[k]})}
			}
		} else if n > 1 {
			p.unsupported("Errorf with several %w")
		}
		return p.newErrorStr(s)
	})
	regv("(*fmt.wrapError).Error", func(p *Path, a []Value) Value { return (*p.ptr(a[0])).(Struct)[0] })
	regv("(*fmt.wrapError).Unwrap", func(p *Path, a []Value) Value { return (*p.ptr(a[0])).(Struct)[1] })
	none := func(p *Path, a []Value) Value { return Tuple{p.intv(0), Iface{}} }
	regv("fmt.Println", none)
	regv("fmt.Printf", none)
	regv("fmt.Print", none)
	wr := func(p *Path, w Iface, s Str) Value {
		if w.t == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callMethod(w, "Write", p.termsVal(p.sbytes(s)))
	}
	regv("fmt.Fprintf", func(p *Path, a []Value) Value {
		return wr(p, a[0].(Iface), p.sprintf(a[1].(Str), p.ifaceArgs(a[2])))
	})
	regv("fmt.Fprint", func(p *Path, a []Value) Value { return wr(p, a[0].(Iface), sprint(p, p.ifaceArgs(a[1]), false)) })
	regv("fmt.Fprintln", func(p *Path, a []Value) Value {
		return wr(p, a[0].(Iface), p.concat(sprint(p, p.ifaceArgs(a[1]), true), mkstr("\n")))
	})
	regv("fmt.Append", func(p *Path, a []Value) Value {
		return p.termsVal(append(sliceTerms(a[0]), p.sbytes(sprint(p, p.ifaceArgs(a[1]), false))...))
	})
	regv("fmt.Appendf", func(p *Path, a []Value) Value {
		return p.termsVal(append(sliceTerms(a[0]), p.sbytes(p.sprintf(a[1].(Str), p.ifaceArgs(a[2])))...))
	})
	for _, n := range []string{"Print", "Printf", "Println"} {
		regv("log."+n, func(p *Path, a []Value) Value { return nil })
	}
}

// --------------------------------------------------------------- base64/32

type baseN struct {
	alpha string
	bits  int
	pad   int // rune or -1
	group int // characters per group
}

func alphabetOf(enc func([]byte) string, bits int) string {
	var sb strings.Builder
	for v := 0; v < 1<<bits; v++ {
		s := enc([]byte{byte(v << (8 - bits)), 0, 0, 0, 0})
		sb.WriteByte(s[0])
	}
	return sb.String()
}

var _ = reflect.TypeOf

// ----------------------------------------------------------------- regexp

// reMatch is the formula "b matches re somewhere", by simulating the compiled
// program with one formula per state and position.
func (p *Path) reMatch(re *regexp.Regexp, b []*Term) *Term {
	if c, ok := termsConcrete(b); ok {
		return p.boolv(re.Match(c))
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		p.unsupported("regexp: " + err.Error())
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		p.unsupported("regexp: " + err.Error())
	}
	// classes that may match beyond ASCII need an ASCII text
	wide := false
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			wide = true
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) > 0 && in.Rune[len(in.Rune)-1] >= 0x80 || syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				wide = true
			}
		}
	}
	if wide {
		p.needASCII(b, "regexp")
	}
	n := len(b)
	match := p.bd.F
	type st = map[uint32]*Term
	cur := st{}
	var add func(s st, pc uint32, c *Term, pos int)
	cls := map[[2]int32]*Term{}
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return p.bd.F
		}
		return p.inSet(b[i], func(c byte) bool { return syntax.IsWordChar(rune(c)) })
	}
	type key struct {
		pc  uint32
		pos int
	}
	inprog := map[key]bool{}
	add = func(s st, pc uint32, c *Term, pos int) {
		if c.isFalse() || inprog[key{pc, pos}] {
			return
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			inprog[key{pc, pos}] = true
			add(s, in.Out, c, pos)
			add(s, in.Arg, c, pos)
			delete(inprog, key{pc, pos})
		case syntax.InstCapture, syntax.InstNop:
			add(s, in.Out, c, pos)
		case syntax.InstEmptyWidth:
			ok := p.bd.T
			f := syntax.EmptyOp(in.Arg)
			nl := func(i int) *Term { return p.bd.Eq(b[i], p.cint(8, '\n')) }
			if f&syntax.EmptyBeginText != 0 {
				ok = p.bd.And(ok, p.boolv(pos == 0))
			}
			if f&syntax.EmptyEndText != 0 {
				ok = p.bd.And(ok, p.boolv(pos == n))
			}
			if f&syntax.EmptyBeginLine != 0 && pos > 0 {
				ok = p.bd.And(ok, nl(pos-1))
			}
			if f&syntax.EmptyEndLine != 0 && pos < n {
				ok = p.bd.And(ok, nl(pos))
			}
			if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				x, y := isWord(pos-1), isWord(pos)
				d := p.bd.Not(p.bd.Eq(x, y))
				if f&syntax.EmptyWordBoundary != 0 {
					ok = p.bd.And(ok, d)
				}
				if f&syntax.EmptyNoWordBoundary != 0 {
					ok = p.bd.And(ok, p.bd.Not(d))
				}
			}
			add(s, in.Out, p.bd.And(c, ok), pos)
		case syntax.InstMatch:
			match = p.bd.Or(match, c)
		case syntax.InstFail:
		default:
			if o, ok := s[pc]; ok {
				s[pc] = p.bd.Or(o, c)
			} else {
				s[pc] = c
			}
		}
	}
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(prog.Start), p.bd.T, pos)
		if pos == n {
			break
		}
		next := st{}
		for pc := range prog.Inst {
			c, ok := cur[uint32(pc)]
			if !ok {
				continue
			}
			in := &prog.Inst[pc]
			k := [2]int32{int32(pc), b[pos].id}
			m, ok := cls[k]
			if !ok {
				m = p.inSet(b[pos], func(ch byte) bool {
					if ch >= 0x80 {
						return false
					}
					switch in.Op {
					case syntax.InstRuneAny:
						return true
					case syntax.InstRuneAnyNotNL:
						return ch != '\n'
					}
					return in.MatchRune(rune(ch))
				})
				cls[k] = m
			}
			add(next, in.Out, p.bd.And(c, m), pos+1)
		}
		cur = next
	}
	return match
}
