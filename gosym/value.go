package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic-execution value:
//
//	*Term            booleans and integers of every width
//	float64, *FTerm  floats (concrete, or an exact small rational)
//	Str              strings: concrete length, symbolic or concrete bytes
//	*Value           pointers (cells), nil for the nil pointer
//	*SymAddr         pointer to an element chosen by a symbolic index
//	Struct, Array    aggregates (copied on load and store)
//	SliceV           slices (sharing backing arrays like Go's)
//	*MapV, Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *NativeObj
type Value = any

type Str struct {
	s string
	b []*Term // non-nil: symbolic bytes, s unused
}
type Struct []Value
type Array []Value
type SliceV struct{ a []Value }
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type BoundNative struct {
	name string
	f    func(p *Path, args []Value) Value
}
type NativeObj struct {
	kind string
	x    any
}
type SymAddr struct {
	cells []Value
	idx   *Term
}
type MapV struct {
	keys []Value
	vals []Value
	idx  map[string]int // concrete keys
	sym  int            // number of symbolic keys
}
type FTerm struct { // exact rational num/den with den>0
	num *Term
	den *Term // nil = 1
}

type mapIter struct {
	m    *MapV
	keys []Value
	i    int
}
type strIter struct {
	s Str
	i int
}

func (s Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (p *Path) cint(w uint8, v uint64) *Term { return p.bd.Const(w, v) }
func (p *Path) intv(v int) *Term             { return p.bd.Const(64, uint64(v)) }
func (p *Path) boolv(v bool) *Term           { return p.bd.Bool(v) }

func mkstr(s string) Str { return Str{s: s} }

// bytes returns the byte terms of a string.
func (p *Path) sbytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = p.bd.Const(8, uint64(s.s[i]))
	}
	return r
}

// strOf makes a string from byte terms, concrete when they all are.
func strOf(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return Str{s: string(r)}
}

func (s Str) concrete() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

func (p *Path) bytesVal(b []byte) SliceV {
	a := make([]Value, len(b))
	for i, c := range b {
		a[i] = p.bd.Const(8, uint64(c))
	}
	return SliceV{a}
}

func (p *Path) termsVal(b []*Term) SliceV {
	a := make([]Value, len(b))
	for i, c := range b {
		a[i] = c
	}
	return SliceV{a}
}

// sliceTerms returns the byte terms of a []byte value.
func sliceTerms(v Value) []*Term {
	switch x := v.(type) {
	case SliceV:
		r := make([]*Term, len(x.a))
		for i, e := range x.a {
			r[i] = e.(*Term)
		}
		return r
	case Array:
		r := make([]*Term, len(x))
		for i, e := range x {
			r[i] = e.(*Term)
		}
		return r
	}
	panic(fmt.Sprintf("sliceTerms %T", v))
}

func termsConcrete(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		r[i] = byte(t.val)
	}
	return r, true
}

func cell(v Value) *Value {
	c := new(Value)
	*c = v
	return c
}

// width of an integer/boolean type
func intWidth(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		return p.zero(u.Underlying())
	case *types.Alias:
		return p.zero(types.Unalias(t))
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if w, _, ok := intWidth(u); ok {
			return p.bd.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		}
		p.unsupported("zero of " + t.String())
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*NativeObj)(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = p.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		p.unsupported("type parameter " + t.String())
	}
	p.unsupported(fmt.Sprintf("zero of %T", t))
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

// storeVal assigns in place so that addresses of fields stay valid.
func storeVal(c *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*c).(Struct); ok && len(old) == len(x) {
			for i := range x {
				storeVal(&old[i], x[i])
			}
			return
		}
		*c = copyVal(v)
	case Array:
		if old, ok := (*c).(Array); ok && len(old) == len(x) {
			for i := range x {
				storeVal(&old[i], x[i])
			}
			return
		}
		*c = copyVal(v)
	default:
		*c = v
	}
}

// strEq is the formula "x and y are the same string".
func (p *Path) strEq(x, y Str) *Term {
	if x.b == nil && y.b == nil {
		return p.bd.Bool(x.s == y.s)
	}
	if x.len() != y.len() {
		return p.bd.F
	}
	return p.bytesEq(p.sbytes(x), p.sbytes(y))
}

func (p *Path) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return p.bd.F
	}
	r := p.bd.T
	for i := len(a) - 1; i >= 0; i-- {
		r = p.bd.And(p.bd.Eq(a[i], b[i]), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLt is the formula x < y (lexicographic).
func (p *Path) strLt(x, y Str) *Term {
	if x.b == nil && y.b == nil {
		return p.bd.Bool(x.s < y.s)
	}
	a, b := p.sbytes(x), p.sbytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := p.bd.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = p.bd.Or(p.bd.Cmp(OUlt, a[i], b[i]), p.bd.And(p.bd.Eq(a[i], b[i]), r))
	}
	return r
}

// eq is Go's == as a formula.
func (p *Path) eq(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return p.bd.Eq(a, y.(*Term))
	case Str:
		return p.strEq(a, y.(Str))
	case float64:
		if b, ok := y.(float64); ok {
			return p.bd.Bool(a == b)
		}
		if b, ok := y.(*FTerm); ok {
			return p.feq(b, a)
		}
	case *FTerm:
		if b, ok := y.(float64); ok {
			return p.feq(a, b)
		}
		b := y.(*FTerm)
		if a.den == nil && b.den == nil {
			return p.bd.Eq(a.num, b.num)
		}
	case *Value:
		switch b := y.(type) {
		case *Value:
			return p.bd.Bool(a == b)
		case *NativeObj:
			return p.bd.Bool(a == nil && b == nil)
		case *SymAddr:
			return p.bd.F
		}
	case *NativeObj:
		switch b := y.(type) {
		case *NativeObj:
			return p.bd.Bool(a == b)
		case *Value:
			return p.bd.Bool(a == nil && b == nil)
		}
	case *SymAddr:
		return p.bd.Bool(false)
	case Struct:
		b := y.(Struct)
		r := p.bd.T
		for i := range a {
			r = p.bd.And(r, p.eq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := p.bd.T
		for i := range a {
			r = p.bd.And(r, p.eq(a[i], b[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return p.bd.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return p.bd.F
		}
		if !types.Comparable(a.t) {
			p.gopanicStr("runtime error: comparing uncomparable type " + a.t.String())
		}
		return p.eq(a.v, b.v)
	case SliceV: // only against nil
		b := y.(SliceV)
		return p.bd.Bool(a.a == nil && b.a == nil)
	case *MapV:
		return p.bd.Bool(a == y.(*MapV))
	case *ssa.Function, *Closure, *BoundNative, *ssa.Builtin:
		return p.bd.Bool(isNilFunc(x) && isNilFunc(y))
	case nil:
		return p.bd.Bool(y == nil)
	}
	p.unsupported(fmt.Sprintf("== on %T and %T", x, y))
	return nil
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case *BoundNative:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (p *Path) feq(a *FTerm, c float64) *Term {
	if c != float64(int64(c)) {
		if a.den == nil {
			return p.bd.F
		}
		p.unsupported("float ==")
	}
	k := p.cint(64, uint64(int64(c)))
	if a.den != nil {
		k = p.bd.Bin(OMul, k, a.den)
	}
	return p.bd.Eq(a.num, k)
}

// ckey is a canonical key for concrete map keys.
func ckey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.val), true
		}
		return "", false
	case Str:
		if x.b == nil {
			return "s" + x.s, true
		}
		return "", false
	case float64:
		return fmt.Sprintf("f%v", x), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *NativeObj:
		return fmt.Sprintf("p%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := ckey(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "{%d:%s}", len(k), k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "[%d:%s]", len(k), k)
		}
		return sb.String(), true
	}
	return "", false
}

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

// find returns the position of key k, forking when it depends on symbolic
// bytes, or -1.
func (p *Path) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	ck, conc := ckey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i, kk := range m.keys {
		if kk == nil {
			continue
		}
		if _, c := ckey(kk); c && conc {
			continue
		}
		if p.branch(p.eq(kk, k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if m == nil {
		p.gopanicStr("assignment to entry in nil map")
	}
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, copyVal(v))
	if ck, ok := ckey(k); ok {
		m.idx[ck] = len(m.keys) - 1
	} else {
		m.sym++
	}
}

func (p *Path) mapDelete(m *MapV, k Value) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	if ck, ok := ckey(m.keys[i]); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	m.keys[i] = nil
	m.vals[i] = nil
}

func (m *MapV) length() int {
	if m == nil {
		return 0
	}
	n := 0
	for _, k := range m.keys {
		if k != nil {
			n++
		}
	}
	return n
}
