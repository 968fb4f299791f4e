package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator. All terms are booleans (w==0) or bit-vectors of
// width 1..64, with the SMT-LIB semantics of the operator of the same name.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract // low bit in val, width w
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64 // constant value, or extract low bit
	name    string // variable
	poss    uint64 // bits that may be one
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

// Builder hash-conses the terms of one path.
type Builder struct {
	tab  map[tkey]*Term
	all  []*Term
	T, F *Term
	// evaluation cache
	ev    []uint64
	evSet []uint32
	epoch uint32
}

func NewBuilder() *Builder {
	b := &Builder{tab: make(map[tkey]*Term)}
	b.F = b.Const(0, 0)
	b.T = b.Const(0, 1)
	return b
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (bd *Builder) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := bd.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: int32(len(bd.all)), a: a, b: b, c: c, val: val, name: name}
	t.poss = possBits(t)
	bd.tab[k] = t
	bd.all = append(bd.all, t)
	return t
}

func possBits(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return t.a.poss
	case OBAnd:
		return t.a.poss & t.b.poss
	case OBOr, OBXor:
		return t.a.poss | t.b.poss
	case OIte:
		if t.w > 0 {
			return t.b.poss | t.c.poss
		}
	case OExtract:
		return (t.a.poss >> t.val) & m
	case OShl:
		if t.b.isConst() && t.b.val < 64 {
			return (t.a.poss << t.b.val) & m
		}
	case OLShr:
		if t.b.isConst() && t.b.val < 64 {
			return t.a.poss >> t.b.val
		}
	case OUDiv:
		if n := bits.Len64(t.a.poss); n < 64 && t.b.isConst() && t.b.val != 0 {
			return (uint64(1) << uint(n)) - 1
		}
	case OURem:
		if t.b.isConst() && t.b.val != 0 {
			n := bits.Len64(t.b.val - 1)
			if n < 64 {
				return (uint64(1) << uint(n)) - 1
			}
		}
	case OAdd:
		n := bits.Len64(t.a.poss)
		if l := bits.Len64(t.b.poss); l > n {
			n = l
		}
		if n+1 < 64 {
			return ((uint64(1) << uint(n+1)) - 1) & m
		}
	case OMul:
		n := bits.Len64(t.a.poss) + bits.Len64(t.b.poss)
		if n < 64 {
			return ((uint64(1) << uint(n)) - 1) & m
		}
	}
	return m
}

func (bd *Builder) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	return bd.mk(OConst, w, nil, nil, nil, v, "")
}
func (bd *Builder) Bool(v bool) *Term {
	if v {
		return bd.T
	}
	return bd.F
}
func (bd *Builder) Var(w uint8, name string) *Term { return bd.mk(OVar, w, nil, nil, nil, 0, name) }

func (bd *Builder) Not(a *Term) *Term {
	if a.isConst() {
		return bd.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return bd.mk(ONot, 0, a, nil, nil, 0, "")
}

func (bd *Builder) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return bd.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return bd.F
	}
	return bd.mk(OAnd, 0, a, b, nil, 0, "")
}

func (bd *Builder) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return bd.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return bd.T
	}
	return bd.mk(OOr, 0, a, b, nil, 0, "")
}

func (bd *Builder) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return bd.T
	}
	if a.isConst() && b.isConst() {
		return bd.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val == 1 {
				return a
			}
			return bd.Not(a)
		}
		if b.val&^a.poss != 0 {
			return bd.F
		}
		switch a.op {
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				x := bd.Eq(a.b, b)
				y := bd.Eq(a.c, b)
				return bd.Ite(a.a, x, y)
			}
		case OZExt:
			return bd.Eq(a.a, bd.Const(a.a.w, b.val))
		case OSExt:
			if uint64(sx(b.val, a.a.w))&mask(a.w) == b.val {
				return bd.Eq(a.a, bd.Const(a.a.w, b.val))
			}
			if sx(b.val&mask(a.a.w), a.a.w) != sx(b.val, a.w) {
				return bd.F
			}
		case OAdd:
			if a.b.isConst() {
				return bd.Eq(a.a, bd.Const(a.w, b.val-a.b.val))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return bd.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return bd.mk(OEq, 0, a, b, nil, 0, "")
}

func (bd *Builder) Ite(c, a, b *Term) *Term {
	if a.w != b.w {
		panic("Ite width mismatch")
	}
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return bd.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return bd.Or(c, b)
		}
		if a.isFalse() {
			return bd.And(bd.Not(c), b)
		}
		if b.isTrue() {
			return bd.Or(bd.Not(c), a)
		}
		if b.isFalse() {
			return bd.And(c, a)
		}
	}
	return bd.mk(OIte, a.w, c, a, b, 0, "")
}

func (bd *Builder) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return bd.Ite(a, bd.Const(w, 1), bd.Const(w, 0))
	}
	if a.w > w {
		return bd.Extract(a, 0, w)
	}
	if a.isConst() {
		return bd.Const(w, a.val)
	}
	if a.op == OZExt {
		return bd.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && (a.c.isConst() || a.c.op == OIte) && iteDepth(a) < 300 {
		return bd.Ite(a.a, bd.ZExt(a.b, w), bd.ZExt(a.c, w))
	}
	return bd.mk(OZExt, w, a, nil, nil, 0, "")
}

func iteDepth(t *Term) int {
	n := 0
	for t.op == OIte {
		n++
		t = t.c
	}
	return n
}

func (bd *Builder) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return bd.Extract(a, 0, w)
	}
	if a.isConst() {
		return bd.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.poss>>(a.w-1) == 0 {
		return bd.ZExt(a, w)
	}
	return bd.mk(OSExt, w, a, nil, nil, 0, "")
}

func (bd *Builder) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return bd.Const(w, a.val>>lo)
	}
	switch a.op {
	case OZExt, OSExt:
		if lo+w <= a.a.w {
			return bd.Extract(a.a, lo, w)
		}
		if a.op == OZExt && lo == 0 {
			return bd.ZExt(a.a, w)
		}
		if a.op == OSExt && lo == 0 {
			return bd.SExt(a.a, w)
		}
		if a.op == OZExt && lo >= a.a.w {
			return bd.Const(w, 0)
		}
	case OExtract:
		return bd.Extract(a.a, lo+uint8(a.val), w)
	case OIte:
		if a.b.isConst() && (a.c.isConst() || a.c.op == OIte) && iteDepth(a) < 300 {
			return bd.Ite(a.a, bd.Extract(a.b, lo, w), bd.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return bd.Bin(a.op, bd.Extract(a.a, lo, w), bd.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return bd.Bin(a.op, bd.Extract(a.a, 0, w), bd.Extract(a.b, 0, w))
		}
	case OLShr:
		if a.b.isConst() && a.b.val+uint64(lo)+uint64(w) <= uint64(a.w) {
			return bd.Extract(a.a, lo+uint8(a.b.val), w)
		}
	case OShl:
		if a.b.isConst() {
			if uint64(lo) >= a.b.val {
				return bd.Extract(a.a, lo-uint8(a.b.val), w)
			}
			if uint64(lo)+uint64(w) <= a.b.val {
				return bd.Const(w, 0)
			}
		}
	}
	return bd.mk(OExtract, w, a, nil, nil, uint64(lo), "")
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

// Bin builds an arithmetic/bitwise operator.
func (bd *Builder) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return bd.Const(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return bd.Bin(OAdd, a.a, bd.Const(w, a.b.val+v))
			}
		case OSub:
			return bd.Bin(OAdd, a, bd.Const(w, -v))
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if v == 0 {
				return a
			}
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if v == 1 {
				return a
			}
		case OBAnd:
			if v == 0 || a.poss&v == 0 {
				return bd.Const(w, 0)
			}
			if a.poss&^v == 0 {
				return a
			}
		}
		switch op {
		case OURem:
			if v != 0 && a.poss < v {
				return a
			}
		case OSRem, OSDiv:
			// non-negative dividend and positive divisor: unsigned
			if a.poss>>(w-1) == 0 && v>>(w-1) == 0 && v != 0 {
				if op == OSRem {
					return bd.Bin(OURem, a, b)
				}
				return bd.Bin(OUDiv, a, b)
			}
		case OShl:
			if v >= uint64(w) {
				return bd.Const(w, 0)
			}
		case OLShr:
			if v >= uint64(w) || a.poss>>v == 0 {
				return bd.Const(w, 0)
			}
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return bd.Ite(a.a, bd.Bin(op, a.b, b), bd.Bin(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return bd.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	return bd.mk(op, w, a, b, nil, 0, "")
}

func (bd *Builder) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("Cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return bd.Bool(a.val < b.val)
		case OUle:
			return bd.Bool(a.val <= b.val)
		case OSlt:
			return bd.Bool(sx(a.val, a.w) < sx(b.val, b.w))
		case OSle:
			return bd.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
		}
	}
	if a == b {
		return bd.Bool(op == OUle || op == OSle)
	}
	top := uint64(1) << (a.w - 1)
	if (op == OSlt || op == OSle) && a.poss&top == 0 && b.poss&top == 0 {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if b.isConst() {
			if b.val == 0 {
				return bd.F
			}
			if a.poss < b.val {
				return bd.T
			}
		}
		if a.isConst() && a.val >= b.poss && b.poss != mask(b.w) {
			return bd.F
		}
	case OUle:
		if b.isConst() && a.poss <= b.val {
			return bd.T
		}
		if a.isConst() && a.val == 0 {
			return bd.T
		}
		if a.isConst() && a.val > b.poss {
			return bd.F
		}
	}
	if (op == OUlt || op == OUle) && a.op == OZExt && b.isConst() && b.val <= mask(a.a.w) {
		return bd.Cmp(op, a.a, bd.Const(a.a.w, b.val))
	}
	if (op == OUlt || op == OUle) && b.op == OZExt && a.isConst() && a.val <= mask(b.a.w) {
		return bd.Cmp(op, bd.Const(b.a.w, a.val), b.a)
	}
	return bd.mk(op, 0, a, b, nil, 0, "")
}

func (bd *Builder) BNot(a *Term) *Term {
	if a.isConst() {
		return bd.Const(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return bd.mk(OBNot, a.w, a, nil, nil, 0, "")
}
func (bd *Builder) Neg(a *Term) *Term {
	if a.isConst() {
		return bd.Const(a.w, -a.val)
	}
	return bd.mk(ONeg, a.w, a, nil, nil, 0, "")
}

// Model assigns variables by name. Missing variables read as zero.
type Model map[string]uint64

// Eval evaluates t under m (memoised until ResetEval).
func (bd *Builder) ResetEval() { bd.epoch++ }

func (bd *Builder) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if int(t.id) >= len(bd.ev) {
		n := len(bd.all) * 2
		ev := make([]uint64, n)
		copy(ev, bd.ev)
		es := make([]uint32, n)
		copy(es, bd.evSet)
		bd.ev, bd.evSet = ev, es
	}
	if bd.evSet[t.id] == bd.epoch+1 {
		return bd.ev[t.id]
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.name] & mask(t.w)
	case ONot:
		r = 1 - bd.Eval(t.a, m)
	case OAnd:
		r = bd.Eval(t.a, m)
		if r == 1 {
			r = bd.Eval(t.b, m)
		}
	case OOr:
		r = bd.Eval(t.a, m)
		if r == 0 {
			r = bd.Eval(t.b, m)
		}
	case OEq:
		if bd.Eval(t.a, m) == bd.Eval(t.b, m) {
			r = 1
		}
	case OIte:
		if bd.Eval(t.a, m) == 1 {
			r = bd.Eval(t.b, m)
		} else {
			r = bd.Eval(t.c, m)
		}
	case OUlt, OUle, OSlt, OSle:
		x, y := bd.Eval(t.a, m), bd.Eval(t.b, m)
		w := t.a.w
		var ok bool
		switch t.op {
		case OUlt:
			ok = x < y
		case OUle:
			ok = x <= y
		case OSlt:
			ok = sx(x, w) < sx(y, w)
		case OSle:
			ok = sx(x, w) <= sx(y, w)
		}
		if ok {
			r = 1
		}
	case OBNot:
		r = ^bd.Eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -bd.Eval(t.a, m) & mask(t.w)
	case OZExt:
		r = bd.Eval(t.a, m)
	case OSExt:
		r = uint64(sx(bd.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (bd.Eval(t.a, m) >> t.val) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, bd.Eval(t.a, m), bd.Eval(t.b, m))
	}
	bd.ev[t.id] = r
	bd.evSet[t.id] = bd.epoch + 1
	return r
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
