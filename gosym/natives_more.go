package main

import (
	"go/token"
	"go/types"
	"html"
	"math"
	"math/big"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// deepEq is the formula "reflect.DeepEqual(x, y)".
func (p *Path) deepEq(x, y Value, depth int) *Term {
	if depth > 64 {
		p.unsupported("DeepEqual of a deep value")
	}
	switch a := x.(type) {
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return p.eq(x, y)
		}
		if a == b {
			return p.bd.T
		}
		if a == nil || b == nil {
			return p.bd.F
		}
		return p.deepEq(*a, *b, depth+1)
	case SliceV:
		b := y.(SliceV)
		if (a.a == nil) != (b.a == nil) || len(a.a) != len(b.a) {
			return p.bd.F
		}
		r := p.bd.T
		for i := range a.a {
			r = p.bd.And(r, p.deepEq(a.a[i], b.a[i], depth+1))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := p.bd.T
		for i := range a {
			r = p.bd.And(r, p.deepEq(a[i], b[i], depth+1))
		}
		return r
	case Array:
		b := y.(Array)
		r := p.bd.T
		for i := range a {
			r = p.bd.And(r, p.deepEq(a[i], b[i], depth+1))
		}
		return r
	case *MapV:
		b := y.(*MapV)
		if (a == nil) != (b == nil) {
			return p.bd.F
		}
		if a == b {
			return p.bd.T
		}
		if a.length() != b.length() {
			return p.bd.F
		}
		r := p.bd.T
		for i, k := range a.keys {
			if k == nil {
				continue
			}
			j := p.mapFind(b, k)
			if j < 0 {
				return p.bd.F
			}
			r = p.bd.And(r, p.deepEq(a.vals[i], b.vals[j], depth+1))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return p.bd.F
		}
		if a.t == nil || b.t == nil {
			return p.boolv(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return p.bd.F
		}
		return p.deepEq(a.v, b.v, depth+1)
	case *ssa.Function, *Closure, *BoundNative:
		return p.boolv(isNilFunc(x) && isNilFunc(y))
	}
	return p.eq(x, y)
}

// replacer is a strings.Replacer.
type replacer struct {
	old, new [][]*Term
	r        *strings.Replacer
}

func (p *Path) replace(x *replacer, s Str) Str {
	if c, ok := s.concrete(); ok && x.r != nil {
		return mkstr(x.r.Replace(c))
	}
	b := p.sbytes(s)
	var out []*Term
	for i := 0; i < len(b); {
		hit := false
		for k, o := range x.old {
			if len(o) == 0 {
				p.unsupported("Replacer with an empty pattern")
			}
			if p.branch(p.matchAt(b, o, i)) {
				out = append(out, x.new[k]...)
				i += len(o)
				hit = true
				break
			}
		}
		if !hit {
			out = append(out, b[i])
			i++
		}
	}
	return strOf(out)
}

// bigOf gives the concrete value of a big.Int, if it is one.
func (p *Path) bigOf(v Value) *big.Int {
	c := p.ptr(v)
	t, ok := p.w.bigs[c]
	if !ok {
		return new(big.Int) // the zero value
	}
	b, ok := termsConcrete(t)
	if !ok {
		p.unsupported("arithmetic on a symbolic big.Int")
	}
	return new(big.Int).SetBytes(b)
}

func (p *Path) setBig(v Value, x *big.Int) Value {
	if x.Sign() < 0 {
		p.unsupported("negative big.Int")
	}
	var t []*Term
	for _, c := range x.Bytes() {
		t = append(t, p.cint(8, uint64(c)))
	}
	p.w.bigs[p.ptr(v)] = t
	return v
}

func (p *Path) newBig(x *big.Int) Value {
	c := cell(p.zero(p.e.namedType("math/big", "Int")))
	return p.setBig(c, x)
}

func regMore() {
	regv("reflect.DeepEqual", func(p *Path, a []Value) Value { return p.deepEq(a[0], a[1], 0) })

	// ---- sync
	regv("(*sync.Pool).Put", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		p.w.pools[c] = append(p.w.pools[c], a[1])
		return nil
	})
	regv("(*sync.Pool).Get", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		if l := p.w.pools[c]; len(l) > 0 {
			p.w.pools[c] = l[:len(l)-1]
			return l[len(l)-1]
		}
		st := (*c).(Struct)
		f := st[structField(p.e.namedType("sync", "Pool"), "New")]
		if isNilFunc(f) {
			return Iface{}
		}
		return p.call(f, nil)
	})
	regv("(*sync.RWMutex).RLocker", func(p *Path, a []Value) Value {
		return Iface{t: types.NewPointer(p.e.namedType("sync", "rlocker")), v: &NativeObj{kind: "rlocker", x: a[0]}}
	})
	nativeMethods["rlocker.Lock"] = func(p *Path, a []Value) Value {
		return p.call(p.e.method("sync", "RWMutex", "RLock"), []Value{a[0].(*NativeObj).x})
	}
	nativeMethods["rlocker.Unlock"] = func(p *Path, a []Value) Value {
		return p.call(p.e.method("sync", "RWMutex", "RUnlock"), []Value{a[0].(*NativeObj).x})
	}
	regv("sync.OnceFunc", func(p *Path, a []Value) Value {
		done := false
		f := a[0]
		return &BoundNative{"OnceFunc", func(p *Path, _ []Value) Value {
			if !done {
				done = true
				p.call(f, nil)
			}
			return nil
		}}
	})
	sm := func(p *Path, v Value) *MapV {
		c := p.ptr(v)
		if p.w.smaps[c] == nil {
			p.w.smaps[c] = newMap()
		}
		return p.w.smaps[c]
	}
	get := func(p *Path, m *MapV, k Value) (Value, bool) {
		if i := p.mapFind(m, k); i >= 0 {
			return m.vals[i], true
		}
		return Iface{}, false
	}
	smf := func(name string, f func(p *Path, m *MapV, a []Value) Value) {
		regv("(*sync.Map)."+name, func(p *Path, a []Value) Value { return f(p, sm(p, a[0]), a[1:]) })
	}
	smf("Load", func(p *Path, m *MapV, a []Value) Value {
		v, ok := get(p, m, a[0])
		return Tuple{v, p.boolv(ok)}
	})
	smf("Store", func(p *Path, m *MapV, a []Value) Value { p.mapSet(m, a[0], a[1]); return nil })
	smf("Delete", func(p *Path, m *MapV, a []Value) Value { p.mapDelete(m, a[0]); return nil })
	smf("LoadOrStore", func(p *Path, m *MapV, a []Value) Value {
		if v, ok := get(p, m, a[0]); ok {
			return Tuple{v, p.bd.T}
		}
		p.mapSet(m, a[0], a[1])
		return Tuple{a[1], p.bd.F}
	})
	smf("LoadAndDelete", func(p *Path, m *MapV, a []Value) Value {
		v, ok := get(p, m, a[0])
		p.mapDelete(m, a[0])
		return Tuple{v, p.boolv(ok)}
	})
	smf("Range", func(p *Path, m *MapV, a []Value) Value {
		for i, k := range append([]Value(nil), m.keys...) {
			if k == nil {
				continue
			}
			if !p.branch(p.call(a[0], []Value{k, m.vals[i]}).(*Term)) {
				break
			}
		}
		return nil
	})
	regv("(*sync/atomic.Value).Load", func(p *Path, a []Value) Value {
		if l := p.w.pools[p.ptr(a[0])]; len(l) > 0 {
			return l[0]
		}
		return Iface{}
	})
	regv("(*sync/atomic.Value).Store", func(p *Path, a []Value) Value {
		if a[1].(Iface).t == nil {
			p.gopanicStr("sync/atomic: store of nil value into Value")
		}
		p.w.pools[p.ptr(a[0])] = []Value{a[1]}
		return nil
	})

	// ---- bytes, strings, html
	regv("internal/bytealg.MakeNoZero", func(p *Path, a []Value) Value {
		n := p.intOf(a[0])
		r := make([]Value, n)
		for i := range r {
			r[i] = p.cint(8, 0)
		}
		return SliceV{r}
	})
	regv("strings.NewReplacer", func(p *Path, a []Value) Value {
		l := a[0].(SliceV).a
		if len(l)%2 == 1 {
			p.gopanicStr("strings.NewReplacer: odd argument count")
		}
		x := &replacer{}
		var cs []string
		for i, v := range l {
			s := v.(Str)
			if c, ok := s.concrete(); ok {
				cs = append(cs, c)
			}
			if i%2 == 0 {
				x.old = append(x.old, p.sbytes(s))
			} else {
				x.new = append(x.new, p.sbytes(s))
			}
		}
		if len(cs) == len(l) {
			x.r = strings.NewReplacer(cs...)
		}
		return &NativeObj{kind: "strings.Replacer", x: x}
	})
	regv("(*strings.Replacer).Replace", func(p *Path, a []Value) Value {
		return p.replace(p.native(a[0], "strings.Replacer").(*replacer), a[1].(Str))
	})
	esc := &replacer{r: strings.NewReplacer(`&`, "&amp;", `'`, "&#39;", `<`, "&lt;", `>`, "&gt;", `"`, "&#34;")}
	pairs := []string{`&`, "&amp;", `'`, "&#39;", `<`, "&lt;", `>`, "&gt;", `"`, "&#34;"}
	bridge("html.EscapeString", html.EscapeString, func(p *Path, a []Value) (Value, bool) {
		x := &replacer{r: esc.r}
		for i := 0; i < len(pairs); i += 2 {
			x.old = append(x.old, p.sbytes(mkstr(pairs[i])))
			x.new = append(x.new, p.sbytes(mkstr(pairs[i+1])))
		}
		return p.replace(x, a[0].(Str)), true
	})
	bridge("html.UnescapeString", html.UnescapeString, nil)

	regv("crypto/internal/constanttime.boolToUint8", func(p *Path, a []Value) Value {
		return p.bd.Ite(a[0].(*Term), p.cint(8, 1), p.cint(8, 0))
	})

	// ---- math
	pick := func(op token.Token) func(p *Path, a []Value) (Value, bool) {
		return func(p *Path, a []Value) (Value, bool) {
			if p.branch(p.fbinop(op, a[0], a[1]).(*Term)) {
				return a[0], true
			}
			return a[1], true
		}
	}
	bridge("math.Max", math.Max, pick(token.GTR))
	bridge("math.Min", math.Min, pick(token.LSS))
	bridge("math.Log", math.Log, nil)
	bridge("math.Log2", math.Log2, nil)
	bridge("math.Exp", math.Exp, nil)

	// ---- strconv
	bridge("strconv.QuoteToASCII", strconv.QuoteToASCII, nil)
	bridge("strconv.FormatFloat", strconv.FormatFloat, nil)
	bridge("strconv.Unquote", strconv.Unquote, nil)

	// ---- math/big
	regv("math/big.NewInt", func(p *Path, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			p.unsupported("symbolic big.NewInt")
		}
		return p.newBig(big.NewInt(int64(t.val)))
	})
	bm := func(name string, f func(p *Path, a []Value) Value) { regv("(*math/big.Int)."+name, f) }
	bm("Bytes", func(p *Path, a []Value) Value {
		b := append([]*Term(nil), p.w.bigs[p.ptr(a[0])]...)
		for len(b) > 0 && p.branch(p.bd.Eq(b[0], p.cint(8, 0))) {
			b = b[1:]
		}
		return p.termsVal(b)
	})
	bm("Int64", func(p *Path, a []Value) Value {
		r := p.cint(64, 0)
		for _, t := range p.w.bigs[p.ptr(a[0])] {
			r = p.bd.Bin(OBOr, p.bd.Bin(OShl, r, p.cint(64, 8)), p.bd.ZExt(t, 64))
		}
		return r
	})
	natives["(*math/big.Int).Uint64"] = natives["(*math/big.Int).Int64"]
	bm("Sign", func(p *Path, a []Value) Value {
		z := p.bd.T
		for _, t := range p.w.bigs[p.ptr(a[0])] {
			z = p.bd.And(z, p.bd.Eq(t, p.cint(8, 0)))
		}
		return p.bd.Ite(z, p.intv(0), p.intv(1))
	})
	bm("BitLen", func(p *Path, a []Value) Value { return p.intv(p.bigOf(a[0]).BitLen()) })
	bm("String", func(p *Path, a []Value) Value { return mkstr(p.bigOf(a[0]).String()) })
	bm("Set", func(p *Path, a []Value) Value { p.w.bigs[p.ptr(a[0])] = p.w.bigs[p.ptr(a[1])]; return a[0] })
	bm("SetInt64", func(p *Path, a []Value) Value { return p.setBig(a[0], big.NewInt(int64(p.intOf(a[1])))) })
	bm("Add", func(p *Path, a []Value) Value {
		return p.setBig(a[0], new(big.Int).Add(p.bigOf(a[1]), p.bigOf(a[2])))
	})
	bm("Sub", func(p *Path, a []Value) Value {
		return p.setBig(a[0], new(big.Int).Sub(p.bigOf(a[1]), p.bigOf(a[2])))
	})
	bm("SetString", func(p *Path, a []Value) Value {
		x, ok := new(big.Int).SetString(p.pstr(a[1]), p.intOf(a[2]))
		if !ok {
			return Tuple{(*Value)(nil), p.bd.F}
		}
		return Tuple{p.setBig(a[0], x), p.bd.T}
	})
	bm("FillBytes", func(p *Path, a []Value) Value {
		d := a[1].(SliceV)
		b := p.w.bigs[p.ptr(a[0])]
		for len(b) > len(d.a) {
			if p.branch(p.bd.Not(p.bd.Eq(b[0], p.cint(8, 0)))) {
				p.gopanicStr("math/big: buffer too small to fit value")
			}
			b = b[1:]
		}
		for i := range d.a {
			d.a[i] = p.cint(8, 0)
		}
		for i, t := range b {
			d.a[len(d.a)-len(b)+i] = t
		}
		return a[1]
	})

	// ---- rand
	regv("crypto/rand.Int", func(p *Path, a []Value) Value {
		m := p.bigOf(a[1])
		if m.Sign() <= 0 {
			p.gopanicStr("crypto/rand: argument to Int is <= 0")
		}
		if !m.IsInt64() {
			p.unsupported("crypto/rand.Int with a wide bound")
		}
		t := p.randn(p.cint(64, m.Uint64()))
		c := cell(p.zero(p.e.namedType("math/big", "Int")))
		var b []*Term
		for i := 7; i >= 0; i-- {
			b = append(b, p.bd.Extract(t, uint8(8*i), 8))
		}
		p.w.bigs[c] = b
		return Tuple{c, Iface{}}
	})
	crand := func(p *Path, n int) Value {
		r := make([]Value, n)
		for i := range r {
			r[i] = p.cint(8, p.w.rnd()&255)
		}
		return SliceV{r}
	}
	regv("crypto/rand.Text", func(p *Path, a []Value) Value {
		r := crand(p, 26).(SliceV)
		for i := range r.a {
			r.a[i] = p.cint(8, uint64("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[r.a[i].(*Term).val&31]))
		}
		return strOf(sliceTerms(r))
	})
	bits := func(w uint8) methodFn {
		return func(p *Path, a []Value) Value {
			if p.w.randMode == 1 {
				x := p.fresh(w, "rand")
				p.inputs = append(p.inputs, &Input{Name: "rand:", Kind: "int", Terms: []*Term{x}, W: int(w)})
				return x
			}
			return p.cint(w, p.w.rnd())
		}
	}
	for _, o := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		regv(o+"Uint32", bits(32))
		regv(o+"Uint64", bits(64))
	}
	perm := func(i int) methodFn {
		return func(p *Path, a []Value) Value {
			n := p.intOf(a[i])
			r := make([]Value, n)
			for k := range r {
				r[k] = p.intv(k)
			}
			for k := n - 1; k > 0; k-- {
				j := p.intOf(p.randn(p.intv(k + 1)))
				r[k], r[j] = r[j], r[k]
			}
			return SliceV{r}
		}
	}
	shuffle := func(i int) methodFn {
		return func(p *Path, a []Value) Value {
			for k := p.intOf(a[i]) - 1; k > 0; k-- {
				p.call(a[i+1], []Value{p.intv(k), p.randn(p.intv(k + 1))})
			}
			return nil
		}
	}
	regv("math/rand.Perm", perm(0))
	regv("(*math/rand.Rand).Perm", perm(1))
	regv("math/rand.Shuffle", shuffle(0))
	regv("(*math/rand.Rand).Shuffle", shuffle(1))

	// ---- regexp: find on concrete text, and on symbolic text the
	// expressions that decide one byte at a time
	re := func(p *Path, v Value) *regexp.Regexp { return p.native(v, "regexp").(*regexp.Regexp) }
	conc := func(name string, f func(r *regexp.Regexp, p *Path, a []Value) any, sym func(r *regexp.Regexp, p *Path, a []Value) Value) {
		regv("(*regexp.Regexp)."+name, func(p *Path, a []Value) Value {
			all := true
			for _, x := range a[1:] {
				switch y := x.(type) {
				case Str:
					_, ok := y.concrete()
					all = all && ok
				case SliceV:
					_, ok := termsConcrete(sliceTerms(y))
					all = all && ok
				}
			}
			if !all {
				if sym != nil {
					return sym(re(p, a[0]), p, a)
				}
				p.unsupported("regexp " + name + " on symbolic text")
			}
			return p.fromGo(reflect.ValueOf(f(re(p, a[0]), p, a)))
		})
	}
	bs := func(p *Path, v Value) []byte { b, _ := termsConcrete(sliceTerms(v)); return b }
	conc("FindString", func(r *regexp.Regexp, p *Path, a []Value) any { return r.FindString(p.pstr(a[1])) }, nil)
	conc("FindStringIndex", func(r *regexp.Regexp, p *Path, a []Value) any { return r.FindStringIndex(p.pstr(a[1])) }, nil)
	conc("FindAllString", func(r *regexp.Regexp, p *Path, a []Value) any { return r.FindAllString(p.pstr(a[1]), p.intOf(a[2])) }, nil)
	conc("FindAllStringSubmatch", func(r *regexp.Regexp, p *Path, a []Value) any {
		return r.FindAllStringSubmatch(p.pstr(a[1]), p.intOf(a[2]))
	}, nil)
	conc("FindStringSubmatchIndex", func(r *regexp.Regexp, p *Path, a []Value) any { return r.FindStringSubmatchIndex(p.pstr(a[1])) }, nil)
	conc("ReplaceAllString", func(r *regexp.Regexp, p *Path, a []Value) any { return r.ReplaceAllString(p.pstr(a[1]), p.pstr(a[2])) },
		func(r *regexp.Regexp, p *Path, a []Value) Value {
			f, plus := byteClass(r.String())
			if f == nil {
				p.unsupported("regexp ReplaceAllString on symbolic text")
			}
			rep, ok := a[2].(Str).concrete()
			if !ok || strings.Contains(rep, "$") {
				p.unsupported("regexp replacement text")
			}
			b := p.sbytes(a[1].(Str))
			p.needASCII(b, "ReplaceAllString")
			var out []*Term
			in := false
			for _, t := range b {
				if p.branch(p.inSet(t, f)) {
					if !in || !plus {
						out = append(out, p.sbytes(mkstr(rep))...)
					}
					in = true
				} else {
					out = append(out, t)
					in = false
				}
			}
			return strOf(out)
		})
	conc("ReplaceAllLiteralString", func(r *regexp.Regexp, p *Path, a []Value) any {
		return r.ReplaceAllLiteralString(p.pstr(a[1]), p.pstr(a[2]))
	}, nil)
	conc("Split", func(r *regexp.Regexp, p *Path, a []Value) any { return r.Split(p.pstr(a[1]), p.intOf(a[2])) }, nil)
	conc("Find", func(r *regexp.Regexp, p *Path, a []Value) any { return r.Find(bs(p, a[1])) }, nil)
	conc("ReplaceAll", func(r *regexp.Regexp, p *Path, a []Value) any { return r.ReplaceAll(bs(p, a[1]), bs(p, a[2])) }, nil)
	bridge("regexp.QuoteMeta", regexp.QuoteMeta, nil)

	// ---- directories and files
	entries := func(p *Path, dir string) ([]string, Iface) {
		c := clean(dir)
		f, ok := p.w.files[c]
		if !ok {
			return nil, p.statErr("open", dir)
		}
		if !f.dir {
			return nil, p.pathError("readdirent", dir, eNOTDIR)
		}
		var out []string
		for k := range p.w.files {
			if k != "/" && filepath.Dir(k) == c {
				out = append(out, filepath.Base(k))
			}
		}
		sort.Strings(out)
		return out, Iface{}
	}
	dirList := func(ioutil bool) methodFn {
		return func(p *Path, a []Value) Value {
			dir := p.pstr(a[0])
			ns, e := entries(p, dir)
			if e.t != nil {
				return Tuple{SliceV{}, e}
			}
			r := []Value{}
			for _, n := range ns {
				f := p.w.files[filepath.Join(clean(dir), n)]
				r = append(r, p.finfoOf(n, f))
			}
			return Tuple{SliceV{r}, Iface{}}
		}
	}
	regv("os.ReadDir", dirList(false))
	regv("io/ioutil.ReadDir", dirList(true))
	regv("(*os.File).Readdirnames", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		ns, e := entries(p, h.path)
		r := []Value{}
		for _, n := range ns {
			r = append(r, mkstr(n))
		}
		return Tuple{SliceV{r}, e}
	})
	nativeMethods["fileInfo.Info"] = func(p *Path, a []Value) Value {
		return Tuple{Iface{t: types.NewPointer(p.e.namedType("os", "fileStat")), v: a[0]}, Iface{}}
	}
	nativeMethods["fileInfo.Type"] = func(p *Path, a []Value) Value {
		if a[0].(*NativeObj).x.(*finfo).dir {
			return p.cint(32, 1<<31)
		}
		return p.cint(32, 0)
	}
	nativeMethods["fileInfo.ModTime"] = func(p *Path, a []Value) Value {
		return p.mkTime(p.cint(64, clockBase), p.cint(64, 0), false)
	}
	regv("path/filepath.Glob", func(p *Path, a []Value) Value {
		pat := p.pstr(a[0])
		r := []Value{}
		for _, k := range p.w.listFiles() {
			ok, err := filepath.Match(pat, k)
			if err != nil {
				return Tuple{SliceV{}, p.newError(err.Error())}
			}
			if ok {
				r = append(r, mkstr(k))
			}
		}
		return Tuple{SliceV{r}, Iface{}}
	})
	bridge("path/filepath.Match", filepath.Match, nil)
	bridge("path/filepath.Rel", filepath.Rel, nil)
	bridge("path/filepath.Split", filepath.Split, nil)
	bridge("path/filepath.ToSlash", filepath.ToSlash, nil)
	bridge("path/filepath.FromSlash", filepath.FromSlash, nil)
	bridge("path/filepath.VolumeName", filepath.VolumeName, nil)
	regv("os.LookupEnv", func(p *Path, a []Value) Value {
		if s, _ := a[0].(Str).concrete(); s == "HOME" {
			return Tuple{mkstr("/zz/home"), p.bd.T}
		}
		return Tuple{mkstr(""), p.bd.F}
	})
	regv("os.Getuid", func(p *Path, a []Value) Value { return p.intv(0) })
	regv("os.Hostname", func(p *Path, a []Value) Value { return Tuple{mkstr("host"), Iface{}} })
	regv("os.SameFile", func(p *Path, a []Value) Value {
		x, ok1 := a[0].(Iface).v.(*NativeObj)
		y, ok2 := a[1].(Iface).v.(*NativeObj)
		return p.boolv(ok1 && ok2 && x.x.(*finfo).name == y.x.(*finfo).name)
	})
	regv("os.Chtimes", func(p *Path, a []Value) Value {
		n := p.pstr(a[0])
		if _, ok := p.w.files[clean(n)]; !ok {
			return p.statErr("chtimes", n)
		}
		return Iface{}
	})
	regv("os.Chown", func(p *Path, a []Value) Value { return Iface{} })
	link := func(p *Path, a []Value) Value {
		from, to := p.pstr(a[0]), p.pstr(a[1])
		if p.fsStep("link") == fFail {
			return p.linkError("link", from, to, eACCES)
		}
		f, ok := p.w.files[clean(from)]
		if !ok {
			return p.linkError("link", from, to, eNOENT)
		}
		if _, ok := p.w.files[clean(to)]; ok {
			return p.linkError("link", from, to, eEXIST)
		}
		p.w.files[clean(to)] = f
		return Iface{}
	}
	regv("os.Link", link)
	regv("(*os.File).WriteAt", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		save := h.off
		h.off = p.intOf(a[2])
		n, e := p.fileWrite(a[0], sliceTerms(a[1]))
		h.off = save
		return Tuple{p.intv(n), e}
	})
	regv("(*os.File).ReadAt", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		save := h.off
		h.off = p.intOf(a[2])
		r := natives["(*os.File).Read"]
		v, _ := r(p, nil, a[:2])
		h.off = save
		return v
	})
	nativeMethods["os.File.Readdirnames"] = func(p *Path, a []Value) Value {
		v, _ := natives["(*os.File).Readdirnames"](p, nil, a)
		return v
	}

	// ---- reflect, as far as kinds and nilness go
	rtype := func(p *Path, t types.Type) Value {
		return Iface{t: types.NewPointer(p.e.namedType("reflect", "rtype")), v: &NativeObj{kind: "rtype", x: t}}
	}
	regv("reflect.TypeOf", func(p *Path, a []Value) Value {
		if t := a[0].(Iface).t; t != nil {
			return rtype(p, t)
		}
		return Iface{}
	})
	rt := func(name string, f func(p *Path, t types.Type) Value) {
		nativeMethods["rtype."+name] = func(p *Path, a []Value) Value { return f(p, a[0].(*NativeObj).x.(types.Type)) }
	}
	rt("String", func(p *Path, t types.Type) Value { return mkstr(types.TypeString(t, (*types.Package).Name)) })
	rt("Name", func(p *Path, t types.Type) Value {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return mkstr(n.Obj().Name())
		}
		if b, ok := types.Unalias(t).(*types.Basic); ok {
			return mkstr(b.Name())
		}
		return mkstr("")
	})
	rt("Kind", func(p *Path, t types.Type) Value { return p.intv(int(kindOf(t))) })
	rt("Elem", func(p *Path, t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtype(p, u.Elem())
		case *types.Slice:
			return rtype(p, u.Elem())
		case *types.Array:
			return rtype(p, u.Elem())
		}
		p.unsupported("reflect Elem")
		return nil
	})
	regv("reflect.ValueOf", func(p *Path, a []Value) Value { return &NativeObj{kind: "reflect.Value", x: a[0].(Iface)} })
	rv := func(name string, f func(p *Path, v Iface) Value) {
		regv("(reflect.Value)."+name, func(p *Path, a []Value) Value {
			o, ok := a[0].(*NativeObj)
			if !ok {
				p.unsupported("reflect.Value")
			}
			return f(p, o.x.(Iface))
		})
	}
	rv("Kind", func(p *Path, v Iface) Value {
		if v.t == nil {
			return p.intv(0)
		}
		return p.intv(int(kindOf(v.t)))
	})
	rv("IsValid", func(p *Path, v Iface) Value { return p.boolv(v.t != nil) })
	rv("Interface", func(p *Path, v Iface) Value { return v })
	rv("IsNil", func(p *Path, v Iface) Value { return p.eq(v.v, p.zero(v.t)) })
	rv("IsZero", func(p *Path, v Iface) Value { return p.deepEq(v.v, p.zero(v.t), 0) })
	rv("Len", func(p *Path, v Iface) Value {
		switch x := v.v.(type) {
		case Str:
			return p.intv(x.len())
		case SliceV:
			return p.intv(len(x.a))
		case *MapV:
			return p.intv(x.length())
		case Array:
			return p.intv(len(x))
		}
		p.unsupported("reflect Len")
		return nil
	})
	regv("internal/godebug.New", func(p *Path, a []Value) Value { return &NativeObj{kind: "godebug"} })
	regv("(*internal/godebug.Setting).Value", func(p *Path, a []Value) Value { return mkstr("") })
	regv("(*internal/godebug.Setting).IncNonDefault", func(p *Path, a []Value) Value { return nil })
	regv("(*sync.RWMutex).TryRLock", func(p *Path, a []Value) Value {
		c, l := p.lockOf(a[0])
		if l.w > 0 {
			return p.bd.F
		}
		l.r++
		p.monLock(c, 1, true)
		return p.bd.T
	})
	bridge("time.ParseDuration", func(s string) (int64, error) { d, err := time.ParseDuration(s); return int64(d), err }, nil)

	// ---- log
	for _, n := range []string{"SetFlags", "SetOutput", "SetPrefix", "Print", "Println", "Printf"} {
		regv("log."+n, func(p *Path, a []Value) Value { return nil })
	}
	regv("log.New", func(p *Path, a []Value) Value { return &NativeObj{kind: "log.Logger"} })
	for _, n := range []string{"SetFlags", "SetOutput", "SetPrefix", "Print", "Println", "Printf"} {
		regv("(*log.Logger)."+n, func(p *Path, a []Value) Value { return nil })
	}
	regv("(time.Weekday).String", func(p *Path, a []Value) Value {
		return mkstr([]string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}[p.intOf(a[0])%7])
	})
	regv("(time.Month).String", func(p *Path, a []Value) Value {
		k := p.intOf(a[0])
		return mkstr([]string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}[k%13])
	})
}

// byteClass recognises an expression that matches one byte of a class, once
// or (plus) one or more times.
func byteClass(s string) (f func(c byte) bool, plus bool) {
	if strings.HasSuffix(s, "+") {
		plus = true
		s = s[:len(s)-1]
	}
	single := strings.HasPrefix(s, "[") && strings.HasSuffix(s, "]") && strings.Count(s, "]") == 1 || len(s) == 1 || len(s) == 2 && s[0] == '\\'
	if !single {
		return nil, false
	}
	r, err := regexp.Compile("^(?:" + s + ")$")
	if err != nil {
		return nil, false
	}
	return func(c byte) bool { return r.Match([]byte{c}) }, plus
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}
