package main

import (
	"bytes"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(p *Path, fn *ssa.Function, args []Value) (Value, bool)
type methodFn func(p *Path, args []Value) Value

var natives = map[string]nativeFn{}
var nativeMethods = map[string]methodFn{}

func reg(name string, f nativeFn) { natives[name] = f }

// regv registers a stub that always handles the call.
func regv(name string, f func(p *Path, args []Value) Value) {
	natives[name] = func(p *Path, fn *ssa.Function, args []Value) (Value, bool) { return f(p, args), true }
}

// toGo converts a fully concrete value to a Go value of type t.
func (p *Path) toGo(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		if s, ok := v.(Str); ok {
			if c, ok := s.concrete(); ok {
				return reflect.ValueOf(c).Convert(t), true
			}
		}
	case reflect.Bool:
		if x, ok := v.(*Term); ok && x.isConst() {
			return reflect.ValueOf(x.val == 1), true
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if x, ok := v.(*Term); ok && x.isConst() {
			return reflect.ValueOf(sx(x.val, x.w)).Convert(t), true
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if x, ok := v.(*Term); ok && x.isConst() {
			return reflect.ValueOf(x.val).Convert(t), true
		}
	case reflect.Float64:
		if x, ok := v.(float64); ok {
			return reflect.ValueOf(x), true
		}
	case reflect.Slice:
		s, ok := v.(SliceV)
		if !ok {
			return reflect.Value{}, false
		}
		if s.a == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s.a), len(s.a))
		for i, e := range s.a {
			g, ok := p.toGo(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(g)
		}
		return r, true
	}
	return reflect.Value{}, false
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (p *Path) fromGo(v reflect.Value) Value {
	t := v.Type()
	if t == errType {
		if v.IsNil() {
			return Iface{}
		}
		return p.newError(v.Interface().(error).Error())
	}
	switch t.Kind() {
	case reflect.String:
		return mkstr(v.String())
	case reflect.Bool:
		return p.boolv(v.Bool())
	case reflect.Int, reflect.Int64:
		return p.cint(64, uint64(v.Int()))
	case reflect.Int32:
		return p.cint(32, uint64(v.Int()))
	case reflect.Int16:
		return p.cint(16, uint64(v.Int()))
	case reflect.Int8:
		return p.cint(8, uint64(v.Int()))
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return p.cint(64, v.Uint())
	case reflect.Uint32:
		return p.cint(32, v.Uint())
	case reflect.Uint16:
		return p.cint(16, v.Uint())
	case reflect.Uint8:
		return p.cint(8, v.Uint())
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return SliceV{}
		}
		a := make([]Value, v.Len())
		for i := range a {
			a[i] = p.fromGo(v.Index(i))
		}
		return SliceV{a}
	case reflect.Array:
		a := make(Array, v.Len())
		for i := range a {
			a[i] = p.fromGo(v.Index(i))
		}
		return a
	}
	p.unsupported("fromGo " + t.String())
	return nil
}

// bridge calls the real Go function when every argument is concrete,
// otherwise sym (when given), otherwise the function's own body.
func bridge(name string, f any, sym func(p *Path, args []Value) (Value, bool)) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	reg(name, func(p *Path, fn *ssa.Function, args []Value) (Value, bool) {
		in := make([]reflect.Value, len(args))
		conc := true
		for i, a := range args {
			g, ok := p.toGo(a, ft.In(i))
			if !ok {
				conc = false
				break
			}
			in[i] = g
		}
		if !conc {
			if sym != nil {
				return sym(p, args)
			}
			return nil, false
		}
		var out []reflect.Value
		var pan any
		func() {
			defer func() { pan = recover() }()
			if ft.IsVariadic() {
				out = fv.CallSlice(in)
			} else {
				out = fv.Call(in)
			}
		}()
		if pan != nil {
			p.gopanicStr(fmt.Sprint(pan))
		}
		switch len(out) {
		case 0:
			return nil, true
		case 1:
			return p.fromGo(out[0]), true
		}
		t := make(Tuple, len(out))
		for i := range t {
			t[i] = p.fromGo(out[i])
		}
		return t, true
	})
}

// ------------------------------------------------------------- errors

func (p *Path) newError(msg string) Iface { return p.newErrorStr(mkstr(msg)) }

func (p *Path) newErrorStr(s Str) Iface {
	t := p.e.namedType("errors", "errorString")
	return Iface{t: types.NewPointer(t), v: cell(Struct{s})}
}

func (p *Path) oserr(name, msg string) Iface {
	if e, ok := p.w.oserr[name]; ok {
		return e
	}
	e := p.newError(msg)
	p.w.oserr[name] = e
	return e
}

func (p *Path) nativeGlobal(g *ssa.Global) (Value, bool) {
	path := g.Pkg.Pkg.Path()
	switch path {
	case "os", "io/fs", "internal/oserror":
		switch g.Name() {
		case "ErrNotExist":
			return p.oserr("ErrNotExist", "file does not exist"), true
		case "ErrExist":
			return p.oserr("ErrExist", "file already exists"), true
		case "ErrPermission":
			return p.oserr("ErrPermission", "permission denied"), true
		case "ErrInvalid":
			return p.oserr("ErrInvalid", "invalid argument"), true
		case "ErrClosed":
			return p.oserr("ErrClosed", "file already closed"), true
		case "Stdout", "Stderr", "Stdin":
			return &NativeObj{kind: "os.File", x: &fsHandle{path: "/dev/null", null: true}}, true
		case "Args":
			return SliceV{[]Value{mkstr("prog")}}, true
		}
	case "strconv":
		switch g.Name() {
		case "ErrSyntax":
			return p.oserr("strconv.ErrSyntax", "invalid syntax"), true
		case "ErrRange":
			return p.oserr("strconv.ErrRange", "value out of range"), true
		}
	case "encoding/base64":
		m := map[string]*base64.Encoding{"StdEncoding": base64.StdEncoding, "URLEncoding": base64.URLEncoding, "RawStdEncoding": base64.RawStdEncoding, "RawURLEncoding": base64.RawURLEncoding}
		if e, ok := m[g.Name()]; ok {
			return &NativeObj{kind: "base64", x: e}, true
		}
	case "encoding/base32":
		m := map[string]*base32.Encoding{"StdEncoding": base32.StdEncoding, "HexEncoding": base32.HexEncoding}
		if e, ok := m[g.Name()]; ok {
			return &NativeObj{kind: "base32", x: e}, true
		}
	case "time":
		switch g.Name() {
		case "Local", "UTC":
			for n, m := range map[string]string{"Local": "localLoc", "UTC": "utcLoc"} {
				if n == g.Name() {
					return p.global(g.Pkg.Var(m)), true
				}
			}
		case "utcLoc", "localLoc":
			// the zone of both is UTC here
			z := p.zero(g.Type().(*types.Pointer).Elem()).(Struct)
			z[0] = mkstr("UTC")
			return z, true
		}
	case "crypto/rand":
		if g.Name() == "Reader" {
			return Iface{t: types.NewPointer(p.e.namedType("crypto/rand", "reader")), v: &NativeObj{kind: "rand.Reader"}}, true
		}
	case "golang.org/x/crypto/bcrypt":
		if strings.HasPrefix(g.Name(), "Err") {
			return p.bcryptErr(g.Name()), true
		}
	}
	return nil, false
}

// ------------------------------------------------------- byte predicates

// inSet is the formula "byte t satisfies f", as a union of ranges.
func (p *Path) inSet(t *Term, f func(c byte) bool) *Term {
	if t.isConst() {
		return p.boolv(f(byte(t.val)))
	}
	if ls := p.leaves(t); ls != nil {
		all, none := true, true
		for c := range ls {
			if ls[c] {
				if f(byte(c)) {
					none = false
				} else {
					all = false
				}
			}
		}
		if all {
			return p.bd.T
		}
		if none {
			return p.bd.F
		}
	}
	r := p.bd.F
	for c := 0; c < 256; {
		if !f(byte(c)) {
			c++
			continue
		}
		d := c
		for d < 255 && f(byte(d+1)) {
			d++
		}
		var e *Term
		switch {
		case c == d:
			e = p.bd.Eq(t, p.cint(8, uint64(c)))
		case c == 0 && d == 255:
			e = p.bd.T
		case c == 0:
			e = p.bd.Cmp(OUle, t, p.cint(8, uint64(d)))
		case d == 255:
			e = p.bd.Cmp(OUle, p.cint(8, uint64(c)), t)
		default:
			e = p.bd.And(p.bd.Cmp(OUle, p.cint(8, uint64(c)), t), p.bd.Cmp(OUle, t, p.cint(8, uint64(d))))
		}
		r = p.bd.Or(r, e)
		c = d + 1
	}
	return r
}

// leaves is the set of values of a byte chosen among constants (a table
// lookup), or nil.
func (p *Path) leaves(t *Term) *[256]bool {
	if t.op != OIte || t.w != 8 {
		return nil
	}
	if r, ok := p.leafMemo[t]; ok {
		return r
	}
	r := new([256]bool)
	for x := t; ; {
		switch {
		case x.isConst():
			r[byte(x.val)] = true
		case x.op == OIte && x.b.isConst():
			r[byte(x.b.val)] = true
			x = x.c
			continue
		case x.op == OIte && x.c.isConst():
			r[byte(x.c.val)] = true
			x = x.b
			continue
		default:
			r = nil
		}
		break
	}
	if p.leafMemo == nil {
		p.leafMemo = map[*Term]*[256]bool{}
	}
	p.leafMemo[t] = r
	return r
}

// needASCII forks the path so that every symbolic byte is < 0x80; the other
// side is not modelled.
func (p *Path) needASCII(b []*Term, what string) {
	c := p.bd.T
	for _, t := range b {
		if t.isConst() && t.val >= 0x80 {
			p.unsupported("non-ASCII text in " + what)
		}
		c = p.bd.And(c, p.bd.Cmp(OUlt, t, p.cint(8, 0x80)))
	}
	if !p.branch(c) {
		p.unsupported("non-ASCII text in " + what)
	}
}

// runs splits b, the symbolic bytes of which are made ASCII as by needASCII,
// into its concrete texts and its symbolic bytes.
func (p *Path) runs(b []*Term, what string, text func(s string), sym func(t *Term)) {
	var syms []*Term
	for _, t := range b {
		if !t.isConst() {
			syms = append(syms, t)
		}
	}
	p.needASCII(syms, what)
	run := []byte{}
	flush := func() {
		if len(run) > 0 {
			text(string(run))
			run = run[:0]
		}
	}
	for _, t := range b {
		if t.isConst() {
			run = append(run, byte(t.val))
			continue
		}
		flush()
		sym(t)
	}
	flush()
}

func (p *Path) mapBytes(s Str, what string, text func(string) string, f func(t *Term) *Term) Str {
	var r []*Term
	p.runs(p.sbytes(s), what, func(s string) { r = append(r, p.sbytes(mkstr(text(s)))...) }, func(t *Term) { r = append(r, f(t)) })
	return strOf(r)
}

func (p *Path) lowerByte(t *Term) *Term {
	up := p.inSet(t, func(c byte) bool { return 'A' <= c && c <= 'Z' })
	return p.bd.Ite(up, p.bd.Bin(OBOr, t, p.cint(8, 0x20)), t)
}
func (p *Path) upperByte(t *Term) *Term {
	lo := p.inSet(t, func(c byte) bool { return 'a' <= c && c <= 'z' })
	return p.bd.Ite(lo, p.bd.Bin(OBAnd, t, p.cint(8, 0xdf)), t)
}

func asciiSpace(c byte) bool {
	return c == ' ' || ('\t' <= c && c <= '\r')
}

// trimSet trims bytes satisfying f at the ends, forking on the length.
// f decides for ASCII, wide for other runes; if wide is nil there are none.
func (p *Path) trimBytes(b []*Term, left, right bool, f func(c byte) bool, wide func(r rune) bool, what string) []*Term {
	if wide != nil {
		p.runs(b, what, func(string) {}, func(*Term) {})
	}
	ascii := func(c byte) bool { return c < utf8.RuneSelf && f(c) }
	i, j := 0, len(b)
	high := func(t *Term) bool { return wide != nil && t.isConst() && t.val >= utf8.RuneSelf }
	for left && i < j {
		if high(b[i]) {
			k := i
			var run []byte
			for k < j && b[k].isConst() {
				run = append(run, byte(b[k].val))
				k++
			}
			r, n := utf8.DecodeRune(run)
			if !wide(r) {
				break
			}
			i += n
			continue
		}
		if !p.branch(p.inSet(b[i], ascii)) {
			break
		}
		i++
	}
	for right && j > i {
		if high(b[j-1]) {
			k := j
			for k > i && b[k-1].isConst() {
				k--
			}
			run, _ := termsConcrete(b[k:j])
			r, n := utf8.DecodeLastRune(run)
			if !wide(r) {
				break
			}
			j -= n
			continue
		}
		if !p.branch(p.inSet(b[j-1], ascii)) {
			break
		}
		j--
	}
	return b[i:j]
}

// isASCII tells whether a set of characters is one of bytes.
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// matchAt is the formula "sep occurs in b at offset i".
func (p *Path) matchAt(b, sep []*Term, i int) *Term {
	if i < 0 || i+len(sep) > len(b) {
		return p.bd.F
	}
	return p.bytesEq(b[i:i+len(sep)], sep)
}

func (p *Path) containsF(b, sep []*Term) *Term {
	r := p.bd.F
	for i := 0; i+len(sep) <= len(b); i++ {
		r = p.bd.Or(r, p.matchAt(b, sep, i))
	}
	return r
}

func (p *Path) indexFork(b, sep []*Term, from int) int {
	for i := from; i+len(sep) <= len(b); i++ {
		if p.branch(p.matchAt(b, sep, i)) {
			return i
		}
	}
	return -1
}

// indexTerm is the first index of sep in b as an ite term.
func (p *Path) indexTerm(b, sep []*Term) *Term {
	r := p.cint(64, ^uint64(0))
	for i := len(b) - len(sep); i >= 0; i-- {
		r = p.bd.Ite(p.matchAt(b, sep, i), p.intv(i), r)
	}
	return r
}

func (p *Path) strB(v Value) []*Term {
	switch x := v.(type) {
	case Str:
		return p.sbytes(x)
	case SliceV:
		return sliceTerms(x)
	}
	p.unsupported(fmt.Sprintf("text of %T", v))
	return nil
}

// wrapLike returns b as the same kind of value as v.
func (p *Path) wrapLike(v Value, b []*Term) Value {
	if _, ok := v.(Str); ok {
		return strOf(b)
	}
	return p.termsVal(b)
}

func (p *Path) split(v Value, sep []*Term, n int) Value {
	b := p.strB(v)
	var parts []Value
	if len(sep) == 0 {
		p.needASCII(b, "Split")
		for i := range b {
			parts = append(parts, p.wrapLike(v, b[i:i+1]))
		}
		return SliceV{parts}
	}
	if n == 0 {
		return SliceV{}
	}
	st := 0
	for i := 0; i+len(sep) <= len(b); {
		if n > 0 && len(parts) == n-1 {
			break
		}
		if p.branch(p.matchAt(b, sep, i)) {
			parts = append(parts, p.wrapLike(v, b[st:i]))
			i += len(sep)
			st = i
		} else {
			i++
		}
	}
	parts = append(parts, p.wrapLike(v, b[st:]))
	return SliceV{parts}
}

func init() {
	// ---- strings / bytes
	type sfn = func(p *Path, a []Value) (Value, bool)
	both := func(name string, fs, fb any, sym sfn) {
		bridge("strings."+name, fs, sym)
		bridge("bytes."+name, fb, sym)
	}
	lower := func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(Str); ok {
			return p.mapBytes(s, "ToLower", strings.ToLower, p.lowerByte), true
		}
		return p.termsVal(p.sbytes(p.mapBytes(strOf(p.strB(a[0])), "ToLower", strings.ToLower, p.lowerByte))), true
	}
	upper := func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(Str); ok {
			return p.mapBytes(s, "ToUpper", strings.ToUpper, p.upperByte), true
		}
		return p.termsVal(p.sbytes(p.mapBytes(strOf(p.strB(a[0])), "ToUpper", strings.ToUpper, p.upperByte))), true
	}
	both("ToLower", strings.ToLower, bytes.ToLower, lower)
	both("ToUpper", strings.ToUpper, bytes.ToUpper, upper)
	both("TrimSpace", strings.TrimSpace, bytes.TrimSpace, func(p *Path, a []Value) (Value, bool) {
		return p.wrapLike(a[0], p.trimBytes(p.strB(a[0]), true, true, asciiSpace, unicode.IsSpace, "TrimSpace")), true
	})
	trim := func(l, r bool) sfn {
		return func(p *Path, a []Value) (Value, bool) {
			cut, ok := a[1].(Str).concrete()
			if !ok {
				return nil, false
			}
			var wide func(r rune) bool
			if !isASCII(cut) {
				wide = func(r rune) bool { return strings.ContainsRune(cut, r) }
			}
			return p.wrapLike(a[0], p.trimBytes(p.strB(a[0]), l, r, func(c byte) bool { return strings.IndexByte(cut, c) >= 0 }, wide, "Trim")), true
		}
	}
	both("Trim", strings.Trim, bytes.Trim, trim(true, true))
	both("TrimLeft", strings.TrimLeft, bytes.TrimLeft, trim(true, false))
	both("TrimRight", strings.TrimRight, bytes.TrimRight, trim(false, true))
	both("TrimPrefix", strings.TrimPrefix, bytes.TrimPrefix, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		if p.branch(p.matchAt(b, c, 0)) {
			return p.wrapLike(a[0], b[len(c):]), true
		}
		return a[0], true
	})
	both("TrimSuffix", strings.TrimSuffix, bytes.TrimSuffix, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		if p.branch(p.matchAt(b, c, len(b)-len(c))) {
			return p.wrapLike(a[0], b[:len(b)-len(c)]), true
		}
		return a[0], true
	})
	both("CutPrefix", strings.CutPrefix, bytes.CutPrefix, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		if p.branch(p.matchAt(b, c, 0)) {
			return Tuple{p.wrapLike(a[0], b[len(c):]), p.bd.T}, true
		}
		return Tuple{a[0], p.bd.F}, true
	})
	both("HasPrefix", strings.HasPrefix, bytes.HasPrefix, func(p *Path, a []Value) (Value, bool) {
		return p.matchAt(p.strB(a[0]), p.strB(a[1]), 0), true
	})
	both("HasSuffix", strings.HasSuffix, bytes.HasSuffix, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		return p.matchAt(b, c, len(b)-len(c)), true
	})
	both("Contains", strings.Contains, bytes.Contains, func(p *Path, a []Value) (Value, bool) {
		return p.containsF(p.strB(a[0]), p.strB(a[1])), true
	})
	both("ContainsAny", strings.ContainsAny, bytes.ContainsAny, func(p *Path, a []Value) (Value, bool) {
		cut, ok := a[1].(Str).concrete()
		if !ok {
			return nil, false
		}
		b := p.strB(a[0])
		if !isASCII(cut) {
			p.needASCII(b, "ContainsAny")
		}
		r := p.bd.F
		for _, t := range b {
			r = p.bd.Or(r, p.inSet(t, func(c byte) bool { return strings.IndexByte(cut, c) >= 0 }))
		}
		return r, true
	})
	bridge("strings.ContainsRune", strings.ContainsRune, func(p *Path, a []Value) (Value, bool) {
		r := a[1].(*Term)
		if !r.isConst() || r.val >= 0x80 {
			return nil, false
		}
		return p.containsF(p.strB(a[0]), []*Term{p.cint(8, r.val)}), true
	})
	both("IndexAny", strings.IndexAny, bytes.IndexAny, func(p *Path, a []Value) (Value, bool) {
		cut, ok := a[1].(Str).concrete()
		if !ok {
			return nil, false
		}
		b := p.strB(a[0])
		if !isASCII(cut) {
			p.needASCII(b, "IndexAny")
		}
		for i, t := range b {
			if p.branch(p.inSet(t, func(c byte) bool { return strings.IndexByte(cut, c) >= 0 })) {
				return p.intv(i), true
			}
		}
		return p.intv(-1), true
	})
	both("Index", strings.Index, bytes.Index, func(p *Path, a []Value) (Value, bool) {
		return p.intv(p.indexFork(p.strB(a[0]), p.strB(a[1]), 0)), true
	})
	ib := func(p *Path, a []Value) (Value, bool) {
		return p.intv(p.indexFork(p.strB(a[0]), []*Term{a[1].(*Term)}, 0)), true
	}
	both("IndexByte", strings.IndexByte, bytes.IndexByte, ib)
	bridge("internal/bytealg.IndexByteString", strings.IndexByte, ib)
	bridge("internal/bytealg.IndexByte", bytes.IndexByte, ib)
	bridge("internal/stringslite.IndexByte", strings.IndexByte, ib)
	lib := func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), a[1].(*Term)
		for i := len(b) - 1; i >= 0; i-- {
			if p.branch(p.bd.Eq(b[i], c)) {
				return p.intv(i), true
			}
		}
		return p.intv(-1), true
	}
	both("LastIndexByte", strings.LastIndexByte, bytes.LastIndexByte, lib)
	bridge("internal/bytealg.LastIndexByteString", strings.LastIndexByte, lib)
	both("LastIndex", strings.LastIndex, bytes.LastIndex, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		for i := len(b) - len(c); i >= 0; i-- {
			if p.branch(p.matchAt(b, c, i)) {
				return p.intv(i), true
			}
		}
		return p.intv(-1), true
	})
	cnt := func(p *Path, a []Value) (Value, bool) {
		b := p.strB(a[0])
		n := p.cint(64, 0)
		for _, t := range b {
			n = p.bd.Bin(OAdd, n, p.bd.Ite(p.bd.Eq(t, a[1].(*Term)), p.intv(1), p.intv(0)))
		}
		return n, true
	}
	bridge("internal/bytealg.CountString", func(s string, c byte) int { return strings.Count(s, string(rune(c))) }, cnt)
	bridge("internal/bytealg.Count", func(s []byte, c byte) int { return bytes.Count(s, []byte{c}) }, cnt)
	both("Count", strings.Count, bytes.Count, func(p *Path, a []Value) (Value, bool) {
		c := p.strB(a[1])
		if len(c) == 1 {
			return cnt(p, []Value{a[0], c[0]})
		}
		b := p.strB(a[0])
		n := 0
		if len(c) == 0 {
			return nil, false
		}
		for i := 0; i+len(c) <= len(b); {
			if p.branch(p.matchAt(b, c, i)) {
				n++
				i += len(c)
			} else {
				i++
			}
		}
		return p.intv(n), true
	})
	both("Equal", func(a, b string) bool { return a == b }, bytes.Equal, func(p *Path, a []Value) (Value, bool) {
		return p.bytesEq(p.strB(a[0]), p.strB(a[1])), true
	})
	bridge("internal/bytealg.Equal", bytes.Equal, func(p *Path, a []Value) (Value, bool) {
		return p.bytesEq(p.strB(a[0]), p.strB(a[1])), true
	})
	cmp := func(p *Path, a []Value) (Value, bool) {
		x, y := strOf(p.strB(a[0])), strOf(p.strB(a[1]))
		return p.bd.Ite(p.strLt(x, y), p.intv(-1), p.bd.Ite(p.strEq(x, y), p.intv(0), p.intv(1))), true
	}
	both("Compare", strings.Compare, bytes.Compare, cmp)
	bridge("internal/bytealg.Compare", bytes.Compare, cmp)
	bridge("internal/bytealg.CompareString", strings.Compare, cmp)
	both("EqualFold", strings.EqualFold, bytes.EqualFold, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		p.needASCII(b, "EqualFold")
		p.needASCII(c, "EqualFold")
		if len(b) != len(c) {
			return p.bd.F, true
		}
		r := p.bd.T
		for i := range b {
			r = p.bd.And(r, p.bd.Eq(p.lowerByte(b[i]), p.lowerByte(c[i])))
		}
		return r, true
	})
	both("Split", strings.Split, bytes.Split, func(p *Path, a []Value) (Value, bool) {
		return p.split(a[0], p.strB(a[1]), -1), true
	})
	both("SplitN", strings.SplitN, bytes.SplitN, func(p *Path, a []Value) (Value, bool) {
		return p.split(a[0], p.strB(a[1]), p.intOf(a[2])), true
	})
	bridge("strings.Cut", strings.Cut, func(p *Path, a []Value) (Value, bool) {
		b, c := p.strB(a[0]), p.strB(a[1])
		if i := p.indexFork(b, c, 0); i >= 0 {
			return Tuple{strOf(b[:i]), strOf(b[i+len(c):]), p.bd.T}, true
		}
		return Tuple{a[0], Str{}, p.bd.F}, true
	})
	bridge("strings.Fields", strings.Fields, func(p *Path, a []Value) (Value, bool) {
		b := p.strB(a[0])
		p.needASCII(b, "Fields")
		parts := []Value{}
		st := -1
		for i, t := range b {
			if p.branch(p.inSet(t, asciiSpace)) {
				if st >= 0 {
					parts = append(parts, strOf(b[st:i]))
					st = -1
				}
			} else if st < 0 {
				st = i
			}
		}
		if st >= 0 {
			parts = append(parts, strOf(b[st:]))
		}
		return SliceV{parts}, true
	})
	bridge("strings.Join", strings.Join, func(p *Path, a []Value) (Value, bool) {
		var r Str
		for i, e := range a[0].(SliceV).a {
			if i > 0 {
				r = p.concat(r, a[1].(Str))
			}
			r = p.concat(r, e.(Str))
		}
		return r, true
	})
	bridge("strings.Repeat", strings.Repeat, func(p *Path, a []Value) (Value, bool) {
		var r Str
		n := p.intOf(a[1])
		if n < 0 {
			p.gopanicStr("strings: negative Repeat count")
		}
		for i := 0; i < n; i++ {
			r = p.concat(r, a[0].(Str))
		}
		return r, true
	})
	repl := func(p *Path, a []Value, n int) Value {
		b, o, nw := p.strB(a[0]), p.strB(a[1]), p.strB(a[2])
		if len(o) == 0 {
			p.unsupported("Replace of empty")
		}
		var r []*Term
		for i := 0; i < len(b); {
			if n != 0 && p.branch(p.matchAt(b, o, i)) {
				r = append(r, nw...)
				i += len(o)
				n--
			} else {
				r = append(r, b[i])
				i++
			}
		}
		return p.wrapLike(a[0], r)
	}
	both("ReplaceAll", strings.ReplaceAll, bytes.ReplaceAll, func(p *Path, a []Value) (Value, bool) { return repl(p, a, -1), true })
	both("Replace", strings.Replace, bytes.Replace, func(p *Path, a []Value) (Value, bool) { return repl(p, a, p.intOf(a[3])), true })
	bridge("strings.Title", strings.Title, nil)
	regv("strings.Clone", func(p *Path, a []Value) Value { return a[0] })
	regv("internal/stringslite.Clone", func(p *Path, a []Value) Value { return a[0] })

	// strings.Builder
	sbf := func(p *Path, recv Value) *Value {
		c := p.ptr(recv)
		return &(*c).(Struct)[1]
	}
	sbAdd := func(p *Path, recv Value, b []*Term) {
		f := sbf(p, recv)
		s := (*f).(SliceV)
		*f = SliceV{append(s.a, p.termsVal(b).a...)}
	}
	regv("(*strings.Builder).WriteString", func(p *Path, a []Value) Value {
		b := p.strB(a[1])
		sbAdd(p, a[0], b)
		return Tuple{p.intv(len(b)), Iface{}}
	})
	regv("(*strings.Builder).Write", func(p *Path, a []Value) Value {
		b := p.strB(a[1])
		sbAdd(p, a[0], b)
		return Tuple{p.intv(len(b)), Iface{}}
	})
	regv("(*strings.Builder).WriteByte", func(p *Path, a []Value) Value {
		sbAdd(p, a[0], []*Term{a[1].(*Term)})
		return Iface{}
	})
	regv("(*strings.Builder).WriteRune", func(p *Path, a []Value) Value {
		b := p.encodeRune(a[1].(*Term))
		sbAdd(p, a[0], b)
		return Tuple{p.intv(len(b)), Iface{}}
	})
	regv("(*strings.Builder).String", func(p *Path, a []Value) Value { return strOf(sliceTerms(*sbf(p, a[0]))) })
	regv("(*strings.Builder).Len", func(p *Path, a []Value) Value { return p.intv(len((*sbf(p, a[0])).(SliceV).a)) })
	regv("(*strings.Builder).Grow", func(p *Path, a []Value) Value {
		f := sbf(p, a[0])
		s, n := (*f).(SliceV), p.intOf(a[1])
		if n < 0 {
			p.gopanicStr("strings.Builder.Grow: negative count")
		}
		if cap(s.a)-len(s.a) < n {
			*f = SliceV{append(make([]Value, 0, 2*cap(s.a)+n), s.a...)}
		}
		return nil
	})
	regv("(*strings.Builder).Reset", func(p *Path, a []Value) Value { *sbf(p, a[0]) = SliceV{}; return nil })

	// ---- unicode
	runeClass := func(name string, f func(r rune) bool) {
		bridge("unicode."+name, f, func(p *Path, a []Value) (Value, bool) {
			r := a[0].(*Term)
			if !p.branch(p.bd.Cmp(OUlt, r, p.cint(r.w, 0x80))) {
				return p.boolv(f(rune(p.concretize(r)))), true
			}
			return p.inSet(p.bd.Extract(r, 0, 8), func(c byte) bool { return c < 0x80 && f(rune(c)) }), true
		})
	}
	runeClass("IsSpace", unicode.IsSpace)
	runeClass("IsUpper", unicode.IsUpper)
	runeClass("IsLower", unicode.IsLower)
	runeClass("IsDigit", unicode.IsDigit)
	runeClass("IsNumber", unicode.IsNumber)
	runeClass("IsLetter", unicode.IsLetter)
	runeClass("IsPunct", unicode.IsPunct)
	runeClass("IsControl", unicode.IsControl)
	runeClass("IsPrint", unicode.IsPrint)
	runeClass("IsGraphic", unicode.IsGraphic)
	runeClass("IsSymbol", unicode.IsSymbol)
	bridge("unicode.ToLower", unicode.ToLower, func(p *Path, a []Value) (Value, bool) {
		r := a[0].(*Term)
		if !p.branch(p.bd.Cmp(OUlt, r, p.cint(r.w, 0x80))) {
			return p.cint(32, uint64(unicode.ToLower(rune(p.concretize(r))))), true
		}
		return p.bd.ZExt(p.lowerByte(p.bd.Extract(r, 0, 8)), 32), true
	})
	bridge("unicode.ToUpper", unicode.ToUpper, func(p *Path, a []Value) (Value, bool) {
		r := a[0].(*Term)
		if !p.branch(p.bd.Cmp(OUlt, r, p.cint(r.w, 0x80))) {
			return p.cint(32, uint64(unicode.ToUpper(rune(p.concretize(r))))), true
		}
		return p.bd.ZExt(p.upperByte(p.bd.Extract(r, 0, 8)), 32), true
	})
	bridge("unicode/utf8.RuneCountInString", utf8.RuneCountInString, func(p *Path, a []Value) (Value, bool) {
		n := 0
		p.runs(p.strB(a[0]), "RuneCount", func(s string) { n += utf8.RuneCountInString(s) }, func(*Term) { n++ })
		return p.intv(n), true
	})
	bridge("unicode/utf8.ValidString", utf8.ValidString, func(p *Path, a []Value) (Value, bool) {
		ok := true
		p.runs(p.strB(a[0]), "ValidString", func(s string) { ok = ok && utf8.ValidString(s) }, func(*Term) {})
		return p.boolv(ok), true
	})

	// ---- strconv
	bridge("strconv.Itoa", strconv.Itoa, func(p *Path, a []Value) (Value, bool) { return p.decimal(a[0].(*Term), true), true })
	bridge("strconv.FormatInt", strconv.FormatInt, func(p *Path, a []Value) (Value, bool) {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return p.decimal(a[0].(*Term), true), true
		}
		return nil, false
	})
	bridge("strconv.FormatUint", strconv.FormatUint, func(p *Path, a []Value) (Value, bool) {
		if b := a[1].(*Term); b.isConst() && b.val == 10 {
			return p.decimal(a[0].(*Term), false), true
		}
		return nil, false
	})
	bridge("strconv.Atoi", strconv.Atoi, func(p *Path, a []Value) (Value, bool) {
		v, ok := p.parseDec(a[0].(Str))
		if !ok {
			return Tuple{p.intv(0), p.newErrorStr(mkstr("strconv.Atoi: parsing: invalid syntax"))}, true
		}
		return Tuple{v, Iface{}}, true
	})
	bridge("strconv.ParseInt", strconv.ParseInt, nil)
	bridge("strconv.ParseUint", strconv.ParseUint, nil)
	bridge("strconv.Quote", strconv.Quote, func(p *Path, a []Value) (Value, bool) { return p.quote(a[0].(Str)), true })
	bridge("strconv.Unquote", strconv.Unquote, nil)
	bridge("strconv.FormatBool", strconv.FormatBool, nil)
	bridge("strconv.ParseBool", strconv.ParseBool, nil)
	bridge("strconv.ParseFloat", strconv.ParseFloat, nil)

	// ---- paths and escapes
	bridge("path/filepath.Dir", filepath.Dir, nil)
	bridge("path/filepath.Base", filepath.Base, nil)
	bridge("path/filepath.Join", filepath.Join, nil)
	bridge("path/filepath.Clean", filepath.Clean, nil)
	bridge("path/filepath.Ext", filepath.Ext, nil)
	bridge("path/filepath.IsAbs", filepath.IsAbs, nil)
	regv("path/filepath.Abs", func(p *Path, a []Value) Value {
		s := p.path(a[0])
		if !strings.HasPrefix(s, "/") {
			s = "/zz/" + s
		}
		return Tuple{mkstr(filepath.Clean(s)), Iface{}}
	})
	regv("path/filepath.EvalSymlinks", func(p *Path, a []Value) Value {
		return Tuple{mkstr(filepath.Clean(p.path(a[0]))), Iface{}}
	})
	bridge("path.Dir", path.Dir, nil)
	bridge("path.Join", path.Join, nil)
	bridge("path.Base", path.Base, nil)
	esc := func(keep func(c byte) bool, plus bool) sfn {
		return func(p *Path, a []Value) (Value, bool) {
			// one branch per byte class keeps lengths concrete
			const hexd = "0123456789ABCDEF"
			var out []*Term
			for _, t := range p.strB(a[0]) {
				if plus && p.branch(p.bd.Eq(t, p.cint(8, ' '))) {
					out = append(out, p.cint(8, '+'))
				} else if p.branch(p.inSet(t, keep)) {
					out = append(out, t)
				} else {
					hx := func(n *Term) *Term {
						return p.bd.Ite(p.bd.Cmp(OUlt, n, p.cint(8, 10)), p.bd.Bin(OAdd, n, p.cint(8, '0')), p.bd.Bin(OAdd, n, p.cint(8, 'A'-10)))
					}
					out = append(out, p.cint(8, '%'), hx(p.bd.Bin(OLShr, t, p.cint(8, 4))), hx(p.bd.Bin(OBAnd, t, p.cint(8, 15))))
				}
			}
			_ = hexd
			return strOf(out), true
		}
	}
	keepQ := func(c byte) bool { return url.QueryEscape(string([]byte{c})) == string([]byte{c}) }
	keepP := func(c byte) bool { return url.PathEscape(string([]byte{c})) == string([]byte{c}) }
	bridge("net/url.QueryEscape", url.QueryEscape, esc(keepQ, true))
	bridge("net/url.PathEscape", url.PathEscape, esc(keepP, false))

	// ---- math
	fl := func(name string, f func(float64) float64, sym func(p *Path, x *FTerm) Value) {
		reg("math."+name, func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if x, ok := a[0].(float64); ok {
				return f(x), true
			}
			x := a[0].(*FTerm)
			if x.den == nil {
				return x, true
			}
			return sym(p, x), true
		})
	}
	fl("Floor", math.Floor, func(p *Path, x *FTerm) Value { return &FTerm{num: p.floorDiv(x.num, x.den)} })
	fl("Trunc", math.Trunc, func(p *Path, x *FTerm) Value { return &FTerm{num: p.divide(false, true, x.num, x.den)} })
	fl("Ceil", math.Ceil, func(p *Path, x *FTerm) Value {
		return &FTerm{num: p.bd.Neg(p.floorDiv(p.bd.Neg(x.num), x.den))}
	})
	fl("Round", math.Round, func(p *Path, x *FTerm) Value {
		// floor((2n+d)/(2d)) for n >= 0 (half away from zero)
		if !p.mustHold(p.bd.Cmp(OSle, p.cint(64, 0), x.num)) {
			p.unsupported("Round of a negative quotient")
		}
		two := p.cint(64, 2)
		return &FTerm{num: p.floorDiv(p.bd.Bin(OAdd, p.bd.Bin(OMul, x.num, two), x.den), p.bd.Bin(OMul, x.den, two))}
	})
	bridge("math.Pow10", math.Pow10, func(p *Path, a []Value) (Value, bool) { return math.Pow10(p.intOf(a[0])), true })
	bridge("math.Pow", math.Pow, nil)
	bridge("math.Abs", math.Abs, nil)
	bridge("math.Sqrt", math.Sqrt, nil)
	bridge("math.Log10", math.Log10, nil)
	bridge("math.Mod", math.Mod, nil)

	// ---- encodings
	regBaseN()
	bridge("encoding/hex.EncodeToString", hex.EncodeToString, func(p *Path, a []Value) (Value, bool) {
		return strOf(p.hexTerms(p.strB(a[0]), false)), true
	})
	bridge("encoding/hex.DecodeString", hex.DecodeString, nil)

	// ---- regexp
	mk := func(p *Path, a []Value) Value {
		s, ok := a[0].(Str).concrete()
		if !ok {
			p.unsupported("symbolic regexp")
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return err
		}
		return &NativeObj{kind: "regexp", x: re}
	}
	regv("regexp.MustCompile", func(p *Path, a []Value) Value {
		r := mk(p, a)
		if e, ok := r.(error); ok {
			p.gopanicStr(e.Error())
		}
		return r
	})
	regv("regexp.Compile", func(p *Path, a []Value) Value {
		r := mk(p, a)
		if e, ok := r.(error); ok {
			return Tuple{(*Value)(nil), p.newError(e.Error())}
		}
		return Tuple{r, Iface{}}
	})
	regv("regexp.MatchString", func(p *Path, a []Value) Value {
		r := mk(p, a)
		if e, ok := r.(error); ok {
			return Tuple{p.bd.F, p.newError(e.Error())}
		}
		return Tuple{p.reMatch(r.(*NativeObj).x.(*regexp.Regexp), p.strB(a[1])), Iface{}}
	})
	regv("(*regexp.Regexp).MatchString", func(p *Path, a []Value) Value {
		return p.reMatch(p.native(a[0], "regexp").(*regexp.Regexp), p.strB(a[1]))
	})
	regv("(*regexp.Regexp).Match", func(p *Path, a []Value) Value {
		return p.reMatch(p.native(a[0], "regexp").(*regexp.Regexp), p.strB(a[1]))
	})
	regv("(*regexp.Regexp).String", func(p *Path, a []Value) Value {
		return mkstr(p.native(a[0], "regexp").(*regexp.Regexp).String())
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s, ok := a[1].(Str).concrete()
		if !ok {
			return nil, false
		}
		return p.fromGo(reflect.ValueOf(p.native(a[0], "regexp").(*regexp.Regexp).FindStringSubmatch(s))), true
	})

	// ---- errors
	regv("errors.Is", func(p *Path, a []Value) Value { return p.errIs(a[0].(Iface), a[1].(Iface)) })
	regv("errors.As", func(p *Path, a []Value) Value { return p.errAs(a[0].(Iface), a[1].(Iface)) })
	regv("errors.is", func(p *Path, a []Value) Value { return p.errIs(a[0].(Iface), a[1].(Iface)) })

	regFmt()
	regSync()
	regTime()
	regRand()
	regFS()
	regCrypto()
	regJSON()
	regV()
	regSort()
	regGor()
	regMore()
}

func (p *Path) native(v Value, kind string) any {
	o, ok := v.(*NativeObj)
	if !ok || o == nil {
		if c, ok := v.(*Value); ok && c == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		p.unsupported(fmt.Sprintf("%s expected, got %T", kind, v))
	}
	if o.kind != kind {
		p.unsupported(kind + " expected, got " + o.kind)
	}
	return o.x
}

func (p *Path) path(v Value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		p.unsupported("symbolic path")
	}
	return s
}

func (p *Path) hexTerms(b []*Term, up bool) []*Term {
	base := uint64('a' - 10)
	if up {
		base = 'A' - 10
	}
	hx := func(n *Term) *Term {
		return p.bd.Ite(p.bd.Cmp(OUlt, n, p.cint(8, 10)), p.bd.Bin(OAdd, n, p.cint(8, '0')), p.bd.Bin(OAdd, n, p.cint(8, base)))
	}
	var out []*Term
	for _, t := range b {
		out = append(out, hx(p.bd.Bin(OLShr, t, p.cint(8, 4))), hx(p.bd.Bin(OBAnd, t, p.cint(8, 15))))
	}
	return out
}

// decimal renders an integer in base 10, forking on sign and digit count.
func (p *Path) decimal(t *Term, signed bool) Str {
	if t.isConst() {
		if signed {
			return mkstr(strconv.FormatInt(sx(t.val, t.w), 10))
		}
		return mkstr(strconv.FormatUint(t.val, 10))
	}
	neg := false
	if signed && t.poss>>(t.w-1) != 0 {
		if p.branch(p.bd.Cmp(OSlt, t, p.cint(t.w, 0))) {
			neg = true
			t = p.bd.Neg(t)
		}
	}
	n := 1
	lim := uint64(10)
	for n < 19 && lim <= mask(t.w) {
		if p.branch(p.bd.Cmp(OUlt, t, p.cint(t.w, lim))) {
			break
		}
		n++
		lim *= 10
	}
	d := p.freshDigits(t, n)
	if neg {
		d = append([]*Term{p.cint(8, '-')}, d...)
	}
	return strOf(d)
}

// freshDigits names the n decimal digits of t, which is below 10^n.
func (p *Path) freshDigits(t *Term, n int) []*Term {
	if n == 1 {
		return []*Term{p.bd.Bin(OAdd, p.bd.Extract(p.bd.ZExt(t, 64), 0, 8), p.cint(8, '0'))}
	}
	if n > 18 {
		return p.digits(t, n)
	}
	w := uint8(32)
	if n > 9 {
		w = 64
	}
	key := digitKey{t, n}
	if d, ok := p.w.digits[key]; ok {
		return d
	}
	x := p.bd.Extract(p.bd.ZExt(t, 64), 0, w)
	val := p.eval(x)
	d := make([]*Term, n)
	sum := p.cint(w, 0)
	ok := p.bd.T
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for i := range d {
		v := p.fresh(8, "digit")
		p.setDefault(v, '0'+val/div%10)
		div /= 10
		ok = p.bd.And(ok, p.inSet(v, func(c byte) bool { return '0' <= c && c <= '9' }))
		sum = p.bd.Bin(OAdd, p.bd.Bin(OMul, sum, p.cint(w, 10)), p.bd.ZExt(p.bd.Bin(OSub, v, p.cint(8, '0')), w))
		d[i] = v
	}
	p.addPC(p.bd.And(ok, p.bd.Eq(x, sum)))
	if p.w.digits == nil {
		p.w.digits = map[digitKey][]*Term{}
	}
	p.w.digits[key] = d
	return d
}

// digits gives the n low decimal digits of t.
func (p *Path) digits(t *Term, n int) []*Term {
	d := make([]*Term, n)
	w := t.w
	x := t
	if w > 32 && t.poss < 1<<32 {
		x = p.bd.Extract(t, 0, 32)
	} else if w > 32 && n <= 9 && p.mustHold(p.bd.Cmp(OUlt, t, p.cint(w, 1<<32))) {
		x = p.bd.Extract(t, 0, 32)
	}
	for i := n - 1; i >= 0; i-- {
		d[i] = p.bd.Bin(OAdd, p.bd.Extract(p.bd.Bin(OURem, x, p.cint(x.w, 10)), 0, 8), p.cint(8, '0'))
		x = p.bd.Bin(OUDiv, x, p.cint(x.w, 10))
	}
	return d
}

// parseDec parses an optionally signed decimal, forking on validity.
func (p *Path) parseDec(s Str) (*Term, bool) {
	b := p.sbytes(s)
	neg := false
	if len(b) > 0 && p.branch(p.bd.Or(p.bd.Eq(b[0], p.cint(8, '-')), p.bd.Eq(b[0], p.cint(8, '+')))) {
		neg = p.branch(p.bd.Eq(b[0], p.cint(8, '-')))
		b = b[1:]
	}
	if len(b) == 0 || len(b) > 18 {
		if len(b) > 18 {
			p.unsupported("long symbolic number")
		}
		return nil, false
	}
	ok := p.bd.T
	v := p.cint(64, 0)
	for _, t := range b {
		ok = p.bd.And(ok, p.inSet(t, func(c byte) bool { return '0' <= c && c <= '9' }))
		v = p.bd.Bin(OAdd, p.bd.Bin(OMul, v, p.cint(64, 10)), p.bd.ZExt(p.bd.Bin(OSub, t, p.cint(8, '0')), 64))
	}
	if !p.branch(ok) {
		return nil, false
	}
	if neg {
		v = p.bd.Neg(v)
	}
	return v, true
}

func (p *Path) quote(s Str) Str {
	if c, ok := s.concrete(); ok {
		return mkstr(strconv.Quote(c))
	}
	b := s.b
	out := []*Term{p.cint(8, '"')}
	for _, t := range b {
		switch {
		case p.branch(p.inSet(t, func(c byte) bool { return c >= 0x20 && c < 0x7f && c != '"' && c != '\\' })):
			out = append(out, t)
		case p.branch(p.inSet(t, func(c byte) bool { return c == '"' || c == '\\' })):
			out = append(out, p.cint(8, '\\'), t)
		default:
			q := strconv.Quote(string([]byte{byte(p.concretize(t))}))
			for _, c := range []byte(q[1 : len(q)-1]) {
				out = append(out, p.cint(8, uint64(c)))
			}
		}
	}
	return strOf(append(out, p.cint(8, '"')))
}

// ------------------------------------------------------------- errors.Is/As

func (p *Path) hasMethod(t types.Type, name string) *types.Func {
	p.e.mmu.Lock()
	defer p.e.mmu.Unlock()
	ms := p.e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func (p *Path) unwrapErr(e Iface) []Iface {
	f := p.hasMethod(e.t, "Unwrap")
	if f == nil {
		return nil
	}
	r := p.callMethod(e, "Unwrap")
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case SliceV:
		var out []Iface
		for _, v := range x.a {
			out = append(out, v.(Iface))
		}
		return out
	}
	return nil
}

func (p *Path) errIs(e, target Iface) *Term {
	if e.t == nil || target.t == nil {
		return p.bd.Bool(e.t == nil && target.t == nil)
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) && p.runtimeComparable(e.v) {
		if p.branch(p.eq(e.v, target.v)) {
			return p.bd.T
		}
	}
	if f := p.hasMethod(e.t, "Is"); f != nil && f.Signature().Params().Len() == 1 {
		if p.branch(p.callMethod(e, "Is", target).(*Term)) {
			return p.bd.T
		}
	}
	for _, u := range p.unwrapErr(e) {
		if p.branch(p.errIs(u, target)) {
			return p.bd.T
		}
	}
	return p.bd.F
}

func (p *Path) runtimeComparable(v Value) bool {
	switch x := v.(type) {
	case SliceV, *MapV:
		return false
	case Struct:
		for _, e := range x {
			if !p.runtimeComparable(e) {
				return false
			}
		}
	case Iface:
		return x.t == nil || types.Comparable(x.t) && p.runtimeComparable(x.v)
	}
	return true
}

func (p *Path) errAs(e, target Iface) *Term {
	if target.t == nil {
		p.gopanicStr("errors: target cannot be nil")
	}
	tt := target.t.Underlying().(*types.Pointer).Elem()
	for e.t != nil {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if p.implements(e.t, it) {
				p.store(target.v, e)
				return p.bd.T
			}
		} else if types.Identical(e.t, tt) {
			p.store(target.v, e.v)
			return p.bd.T
		}
		us := p.unwrapErr(e)
		if len(us) == 0 {
			break
		}
		for _, u := range us[1:] {
			if p.branch(p.errAs(u, target)) {
				return p.bd.T
			}
		}
		e = us[0]
	}
	return p.bd.F
}
