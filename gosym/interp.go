package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 400

type deferred struct {
	fn   Value
	args []Value
	site *ssa.Defer
}

type frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	cur       ssa.Instruction
	defers    []deferred
	result    Value
	panicking bool
	panicVal  targetPanic
	locals    []Value
}

func (p *Path) gopanicStr(msg string) {
	panic(targetPanic{v: Iface{t: p.e.runtimeErrType, v: mkstr(msg)}, msg: msg, trace: p.where()})
}

func (p *Path) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return p.constVal(x)
	case *ssa.Global:
		return p.global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		if w, _, ok := intWidth(tp); ok {
			if w == 0 {
				return p.bd.Bool(constant.BoolVal(c.Value))
			}
			iv := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(iv); ok {
				return p.bd.Const(w, uint64(i))
			}
			u, _ := constant.Uint64Val(iv)
			return p.bd.Const(w, u)
		}
		switch tp.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return mkstr(constant.StringVal(c.Value))
			}
			return mkstr(string(rune(c.Int64())))
		case types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return f
		case types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return float64(f)
		}
	}
	p.unsupported("constant " + c.String())
	return nil
}

func (p *Path) global(g *ssa.Global) *Value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := cell(p.zero(g.Type().(*types.Pointer).Elem()))
	if v, ok := p.nativeGlobal(g); ok {
		*c = v
		p.globals[g] = c
		return c
	}
	p.globals[g] = c
	if g.Pkg != nil && p.e.noInit(g.Pkg.Pkg.Path()) {
		*c = poison{"uninitialised " + g.String()}
		return c
	}
	p.initPkg(g.Pkg)
	return c
}

func (p *Path) initPkg(pkg *ssa.Package) {
	if pkg == nil || p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	path := pkg.Pkg.Path()
	if p.e.noInit(path) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	if !strings.HasPrefix(path, p.e.modpath) {
		p.tolerant++
		defer func() { p.tolerant-- }()
	}
	save, mon := p.frames, p.w.mon
	p.w.mon = nil // initialisation is ordered before every other use
	p.callSSA(f, nil, nil)
	p.frames, p.w.mon = save, mon
}

// callFunction calls any function value.
func (p *Path) call(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callFunction(f, args, nil)
	case *Closure:
		if f == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callFunction(f.fn, args, f.env)
	case *BoundNative:
		return f.f(p, args)
	case nil:
		p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	p.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

func (p *Path) callFunction(fn *ssa.Function, args []Value, env []Value) Value {
	if len(p.frames) > maxDepth {
		panic(pathEnd{"limit", "steps: call depth @ " + p.where()})
	}
	name := p.e.fnKey(fn)
	if nat, ok := natives[name]; ok {
		if p.w.mon != nil {
			p.monNative(fn, args)
		}
		if r, done := nat(p, fn, args); done {
			p.stubs[name]++
			return r
		}
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn == fn.Pkg.Func("init") {
		// dependency initialisation is lazy
		if len(p.frames) > 0 {
			if !strings.HasPrefix(fn.Pkg.Pkg.Path(), p.e.modpath) {
				return nil
			}
			p.initPkg(fn.Pkg)
			return nil
		}
	}
	if fn.Blocks == nil {
		p.unsupported("no source for " + name)
	}
	if p.e.denied(fn) {
		p.unsupported("not modelled: " + name)
	}
	return p.callSSA(fn, args, env)
}

func (p *Path) callSSA(fn *ssa.Function, args []Value, env []Value) Value {
	if fn.Pkg != nil && fn.Name() != "init" && strings.HasPrefix(fn.Pkg.Pkg.Path(), p.e.modpath) {
		p.initPkg(fn.Pkg)
	}
	p.funcs[fn] = true
	fr := &frame{fn: fn, env: make(map[ssa.Value]Value, 16)}
	for i, prm := range fn.Params {
		fr.env[prm] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	p.frames = append(p.frames, fr)
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		p.runFrame(fr)
	}
	p.frames = p.frames[:len(p.frames)-1]
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	depth := len(p.frames)
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		p.frames = p.frames[:depth]
		fr.panicking = true
		fr.panicVal = tp
		p.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results: zero values
			fr.result = p.zeroResults(fr.fn)
		}
	}()
	for {
		var next *ssa.BasicBlock
		jumped := false
		for _, in := range fr.block.Instrs {
			p.steps++
			fr.cur = in
			if p.steps > p.e.maxSteps {
				panic(pathEnd{"limit", "steps > " + fmt.Sprint(p.e.maxSteps) + " @ " + p.where()})
			}
			switch x := in.(type) {
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = copyVal(p.get(fr, x.Results[0]))
				default:
					t := make(Tuple, len(x.Results))
					for i, r := range x.Results {
						t[i] = copyVal(p.get(fr, r))
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Jump:
				next = fr.block.Succs[0]
				jumped = true
			case *ssa.If:
				c := p.get(fr, x.Cond)
				ct, ok := c.(*Term)
				if !ok {
					p.unsupported("if on poison")
				}
				if p.branch(ct) {
					next = fr.block.Succs[0]
				} else {
					next = fr.block.Succs[1]
				}
				jumped = true
			case *ssa.Panic:
				v := p.get(fr, x.X).(Iface)
				panic(targetPanic{v: v, msg: p.panicText(v), trace: p.where()})
			default:
				if p.tolerant > 0 {
					p.tolerantVisit(fr, in)
				} else {
					p.visit(fr, in)
				}
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("block without terminator")
		}
		fr.prev, fr.block = fr.block, next
		// phis, simultaneously
		var vals []Value
		var phis []*ssa.Phi
		for _, in := range fr.block.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pred := range fr.block.Preds {
				if pred == fr.prev {
					vals = append(vals, p.get(fr, ph.Edges[i]))
					break
				}
			}
			phis = append(phis, ph)
		}
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
	}
}

type poison struct{ why string }

// tolerantVisit is used for the initialisers of packages outside the module:
// what cannot be executed yields a poison value.
func (p *Path) tolerantVisit(fr *frame, in ssa.Instruction) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why := ""
		switch x := r.(type) {
		case pathEnd:
			if x.kind != "unsupported" {
				panic(r)
			}
			why = x.why
		case targetPanic:
			why = x.msg
		case crashSignal:
			panic(r)
		default:
			why = fmt.Sprint(r)
		}
		for i := range p.frames {
			if p.frames[i] == fr {
				p.frames = p.frames[:i+1]
				break
			}
		}
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = poison{why}
		}
	}()
	p.visit(fr, in)
}

func (p *Path) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = p.zero(res.At(i).Type())
	}
	return t
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := len(p.frames)
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				p.frames = p.frames[:depth]
				fr.panicking = true
				fr.panicVal = tp
			}()
			p.callAny(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (p *Path) callAny(fr *frame, fn Value, args []Value) Value {
	if b, ok := fn.(*ssa.Builtin); ok {
		return p.builtin(fr, b, args, nil)
	}
	return p.call(fn, args)
}

func (p *Path) panicText(v Iface) string {
	if s, ok := v.v.(Str); ok {
		if c, ok := s.concrete(); ok {
			return c
		}
	}
	if v.t == nil {
		return "nil"
	}
	return "panic of type " + v.t.String()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Path) ptr(v Value) *Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return x
	case *NativeObj:
		if x == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		p.unsupported("field access on native object " + x.kind)
	case poison:
		p.unsupported("poison: " + x.why)
	}
	p.unsupported(fmt.Sprintf("dereference of %T", v))
	return nil
}

func (p *Path) load(addr Value) Value {
	switch a := addr.(type) {
	case *SymAddr:
		if p.w.mon != nil {
			for i := range a.cells {
				p.w.mon.access(p, &a.cells[i], false)
			}
		}
		return p.loadSym(a)
	case *NativeObj:
		if a != nil {
			return a // opaque struct value
		}
	}
	c := p.ptr(addr)
	if p.w.mon != nil {
		p.w.mon.access(p, c, false)
	}
	v := *c
	if po, ok := v.(poison); ok {
		p.unsupported("poison: " + po.why)
	}
	return copyVal(v)
}

func (p *Path) loadSym(a *SymAddr) Value {
	allTerms := true
	for _, c := range a.cells {
		if _, ok := c.(*Term); !ok {
			allTerms = false
		}
	}
	if !allTerms || len(a.cells) > 512 {
		i := p.concretize(a.idx)
		return copyVal(a.cells[i])
	}
	// ite chain, merging equal runs
	n := len(a.cells)
	r := a.cells[n-1].(*Term)
	last := r
	for i := n - 2; i >= 0; i-- {
		t := a.cells[i].(*Term)
		if t == last { // a run of equal cells shares one comparison
			continue
		}
		r = p.bd.Ite(p.bd.Cmp(OUle, a.idx, p.bd.Const(a.idx.w, uint64(i))), t, r)
		last = t
	}
	return r
}

func (p *Path) store(addr, v Value) {
	if a, ok := addr.(*SymAddr); ok {
		if p.w.mon != nil {
			for i := range a.cells {
				p.w.mon.access(p, &a.cells[i], true)
			}
		}
		t, ok := v.(*Term)
		if !ok {
			i := p.concretize(a.idx)
			a.cells[i] = v
			return
		}
		for i := range a.cells {
			a.cells[i] = p.bd.Ite(p.bd.Eq(a.idx, p.bd.Const(a.idx.w, uint64(i))), t, a.cells[i].(*Term))
		}
		return
	}
	c := p.ptr(addr)
	if p.w.mon != nil {
		p.w.mon.access(p, c, true)
	}
	storeVal(c, v)
}

// index checks 0 <= idx < n, panicking in the target when it can fail, and
// returns a concrete index or (-1, term).
func (p *Path) index(idx *Term, n int, signed bool) (int, *Term) {
	if idx.w < 64 {
		if signed {
			idx = p.bd.SExt(idx, 64)
		} else {
			idx = p.bd.ZExt(idx, 64)
		}
	}
	ok := p.bd.Cmp(OUlt, idx, p.intv(n))
	if !p.branch(ok) {
		p.gopanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	if idx.isConst() {
		return int(idx.val), nil
	}
	return -1, idx
}

// intOf gives a concrete int.
func (p *Path) intOf(v Value) int {
	t := v.(*Term)
	return int(sx(p.concretize(t), t.w))
}

func (p *Path) visit(fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// done on block entry
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		fr.env[x] = cell(p.zero(t))
	case *ssa.UnOp:
		fr.env[x] = p.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = p.binop(x.Op, x.X.Type(), p.get(fr, x.X), p.get(fr, x.Y), x.Y.Type())
	case *ssa.Call:
		fn, args := p.prepareCall(fr, &x.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.env[x] = p.builtin(fr, b, args, &x.Call)
		} else {
			fr.env[x] = p.call(fn, args)
		}
	case *ssa.ChangeInterface:
		fr.env[x] = p.get(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = p.get(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = p.convert(x.X.Type(), x.Type(), p.get(fr, x.X))
	case *ssa.MultiConvert:
		fr.env[x] = p.convert(x.X.Type(), x.Type(), p.get(fr, x.X))
	case *ssa.SliceToArrayPointer:
		s := p.get(fr, x.X).(SliceV)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if len(s.a) < n {
			p.gopanicStr("runtime error: cannot convert slice to array pointer")
		}
		fr.env[x] = cell(Array(s.a[:n:n]))
	case *ssa.MakeInterface:
		fr.env[x] = Iface{t: x.X.Type(), v: copyVal(p.get(fr, x.X))}
	case *ssa.Extract:
		fr.env[x] = p.tupleOf(p.get(fr, x.Tuple))[x.Index]
	case *ssa.Slice:
		fr.env[x] = p.slice(fr, x)
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.Store:
		p.store(p.get(fr, x.Addr), p.get(fr, x.Val))
	case *ssa.Defer:
		fn, args := p.prepareCall(fr, &x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, x})
	case *ssa.Go:
		fn, args := p.prepareCall(fr, &x.Call)
		if _, ok := fn.(*ssa.Builtin); ok {
			p.unsupported("go statement of a builtin")
		}
		p.spawn(fn, args)
	case *ssa.MakeChan:
		fr.env[x] = p.newChan(x.Type().Underlying().(*types.Chan).Elem(), p.makeLen(p.get(fr, x.Size)))
	case *ssa.Send:
		p.chanSend(p.get(fr, x.Chan), p.get(fr, x.X))
	case *ssa.Select:
		fr.env[x] = p.selectStmt(fr, x)
	case *ssa.MakeMap:
		fr.env[x] = newMap()
	case *ssa.MakeSlice:
		n := p.makeLen(p.get(fr, x.Len))
		c := n
		if x.Cap != nil {
			c = p.makeLen(p.get(fr, x.Cap))
		}
		if c < n {
			p.gopanicStr("runtime error: makeslice: cap out of range")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		a := make([]Value, c)
		for i := range a {
			a[i] = p.zero(el)
		}
		fr.env[x] = SliceV{a[:n]}
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = p.get(fr, b)
		}
		fr.env[x] = &Closure{x.Fn.(*ssa.Function), env}
	case *ssa.FieldAddr:
		c := p.ptr(p.get(fr, x.X))
		s, ok := (*c).(Struct)
		if !ok {
			p.unsupported(fmt.Sprintf("field of %T", *c))
		}
		fr.env[x] = &s[x.Field]
	case *ssa.Field:
		v := p.get(fr, x.X)
		s, ok := v.(Struct)
		if !ok {
			p.unsupported(fmt.Sprintf("field of %T", v))
		}
		fr.env[x] = s[x.Field]
	case *ssa.IndexAddr:
		v := p.get(fr, x.X)
		_, sgn, _ := intWidth(x.Index.Type())
		idx := p.get(fr, x.Index).(*Term)
		var cells []Value
		switch b := v.(type) {
		case SliceV:
			cells = b.a
		default:
			c := p.ptr(v)
			if po, ok := (*c).(poison); ok {
				p.unsupported("poison: " + po.why)
			}
			cells = (*c).(Array)
		}
		i, t := p.index(idx, len(cells), sgn)
		if t != nil {
			fr.env[x] = &SymAddr{cells, t}
		} else {
			fr.env[x] = &cells[i]
		}
	case *ssa.Index:
		v := p.get(fr, x.X)
		_, sgn, _ := intWidth(x.Index.Type())
		idx := p.get(fr, x.Index).(*Term)
		switch b := v.(type) {
		case Array:
			i, t := p.index(idx, len(b), sgn)
			if t != nil {
				fr.env[x] = p.loadSym(&SymAddr{b, t})
			} else {
				fr.env[x] = b[i]
			}
		case Str:
			i, t := p.index(idx, b.len(), sgn)
			if t != nil {
				fr.env[x] = p.loadSym(&SymAddr{p.termsVal(p.sbytes(b)).a, t})
			} else {
				fr.env[x] = p.strAt(b, i)
			}
		default:
			p.unsupported(fmt.Sprintf("index of %T", v))
		}
	case *ssa.Lookup:
		fr.env[x] = p.lookup(fr, x)
	case *ssa.MapUpdate:
		m, ok := p.get(fr, x.Map).(*MapV)
		if !ok {
			p.unsupported("map update on poison")
		}
		p.monMap(m, true)
		p.mapSet(m, p.get(fr, x.Key), p.get(fr, x.Value))
	case *ssa.Range:
		switch v := p.get(fr, x.X).(type) {
		case *MapV:
			p.monMap(v, false)
			it := &mapIter{m: v}
			if v != nil {
				for _, k := range v.keys {
					if k != nil {
						it.keys = append(it.keys, k)
					}
				}
			}
			fr.env[x] = it
		case Str:
			fr.env[x] = &strIter{s: v}
		default:
			p.unsupported(fmt.Sprintf("range over %T", v))
		}
	case *ssa.Next:
		fr.env[x] = p.next(fr, x)
	case *ssa.TypeAssert:
		v := p.get(fr, x.X)
		itf, ok := v.(Iface)
		if !ok {
			p.unsupported(fmt.Sprintf("type assertion on %T", v))
		}
		fr.env[x] = p.typeAssert(x, itf)
	default:
		p.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func (p *Path) tupleOf(v Value) Tuple {
	switch t := v.(type) {
	case Tuple:
		return t
	case poison:
		p.unsupported("poison: " + t.why)
	}
	p.unsupported(fmt.Sprintf("extract from %T", v))
	return nil
}

func (p *Path) monMap(m *MapV, write bool) {
	if p.w.mon != nil && m != nil {
		p.w.mon.accessObj(p, m, write)
	}
}

func (p *Path) makeLen(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		bad := p.bd.Or(p.bd.Cmp(OSlt, t, p.bd.Const(t.w, 0)), p.bd.Cmp(OSlt, p.bd.Const(t.w, 1<<20), t))
		if p.branch(bad) {
			p.gopanicStr("runtime error: makeslice: len out of range")
		}
	}
	n := int(sx(p.concretize(t), t.w))
	if n < 0 || n > 1<<24 {
		p.gopanicStr("runtime error: makeslice: len out of range")
	}
	return n
}

func (p *Path) strAt(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return p.bd.Const(8, uint64(s.s[i]))
}

func (p *Path) lookup(fr *frame, x *ssa.Lookup) Value {
	v := p.get(fr, x.X)
	m, ok := v.(*MapV)
	if !ok {
		p.unsupported(fmt.Sprintf("lookup in %T", v))
	}
	p.monMap(m, false)
	k := p.get(fr, x.Index)
	i := p.mapFind(m, k)
	var r Value
	if i >= 0 {
		r = copyVal(m.vals[i])
	} else {
		r = p.zero(x.X.Type().Underlying().(*types.Map).Elem())
	}
	if x.CommaOk {
		return Tuple{r, p.boolv(i >= 0)}
	}
	return r
}

func (p *Path) next(fr *frame, x *ssa.Next) Value {
	switch it := p.get(fr, x.Iter).(type) {
	case *mapIter:
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			// skip entries deleted meanwhile
			if j := p.mapFind(it.m, k); j >= 0 {
				return Tuple{p.bd.T, copyVal(k), copyVal(it.m.vals[j])}
			}
		}
		mt := x.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return p.zero(t)
		}
		return Tuple{p.bd.F, z(mt.At(1).Type()), z(mt.At(2).Type())}
	case *strIter:
		if it.i >= it.s.len() {
			return Tuple{p.bd.F, p.intv(0), p.cint(32, 0)}
		}
		i := it.i
		if s, ok := it.s.concrete(); ok {
			for j, r := range s[i:] {
				if j > 0 {
					break
				}
				n := len(string(r))
				if r == 0xfffd {
					n = 1
					if strings.HasPrefix(s[i:], "\uFFFD") {
						n = 3
					}
				}
				it.i += n
				return Tuple{p.bd.T, p.intv(i), p.cint(32, uint64(r))}
			}
		}
		r, n := p.decodeRune(it.s.b[i:])
		it.i += n
		return Tuple{p.bd.T, p.intv(i), r}
	}
	p.unsupported("next")
	return nil
}

// decodeRune handles symbolic UTF-8 by forking on the ASCII case; a byte with
// the top bit set is decoded precisely for 2-byte sequences and invalid bytes,
// otherwise concretised.
func (p *Path) decodeRune(b []*Term) (*Term, int) {
	c := b[0]
	if p.branch(p.bd.Cmp(OUlt, c, p.cint(8, 0x80))) {
		return p.bd.ZExt(c, 32), 1
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	buf := make([]byte, n)
	for i := 0; i < n; i++ {
		buf[i] = byte(p.concretize(b[i]))
		if i == 0 && (buf[0] < 0xc2 || buf[0] > 0xf4) {
			return p.cint(32, 0xfffd), 1
		}
	}
	for j, r := range string(buf) {
		if j == 0 {
			w := len(string(r))
			if r == 0xfffd && !(buf[0] == 0xef) {
				w = 1
			}
			return p.cint(32, uint64(r)), w
		}
	}
	return p.cint(32, 0xfffd), 1
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (p *Path) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	var ok bool
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil {
			ok = p.implements(v.t, it)
		}
		r = v
		if !ok {
			r = Iface{}
		}
	} else {
		ok = v.t != nil && types.Identical(v.t, x.AssertedType)
		if ok {
			r = copyVal(v.v)
		} else {
			r = p.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{r, p.boolv(ok)}
	}
	if !ok {
		ts := "nil"
		if v.t != nil {
			ts = v.t.String()
		}
		p.gopanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, x.AssertedType))
	}
	return r
}

func (p *Path) prepareCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		v := p.get(fr, c.Value)
		recv, ok := v.(Iface)
		if !ok {
			p.unsupported(fmt.Sprintf("invoke on %T", v))
		}
		for _, a := range c.Args {
			args = append(args, copyVal(p.get(fr, a)))
		}
		return p.method(recv, c.Method), append([]Value{recv.v}, args...)
	}
	fn := p.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, copyVal(p.get(fr, a)))
	}
	return fn, args
}

// method resolves a dynamic call.
func (p *Path) method(recv Iface, m *types.Func) Value {
	if recv.t == nil {
		p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if o, ok := recv.v.(*NativeObj); ok && o != nil {
		if f, ok := nativeMethods[o.kind+"."+m.Name()]; ok {
			return &BoundNative{o.kind + "." + m.Name(), f}
		}
	}
	if recv.t == p.e.runtimeErrType {
		return &BoundNative{"runtime error", func(p *Path, a []Value) Value {
			s := a[0].(Str)
			return s
		}}
	}
	f := p.e.lookupMethod(recv.t, m)
	if f == nil {
		p.unsupported("method " + m.FullName() + " on " + recv.t.String())
	}
	return f
}

func (p *Path) callMethod(recv Iface, name string, args ...Value) Value {
	ms := p.e.prog.MethodSets.MethodSet(recv.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.method(recv, ms.At(i).Obj().(*types.Func))
			return p.call(f, append([]Value{recv.v}, args...))
		}
	}
	if o, ok := recv.v.(*NativeObj); ok && o != nil {
		if f, ok := nativeMethods[o.kind+"."+name]; ok {
			return f(p, append([]Value{recv.v}, args...))
		}
	}
	if recv.t == p.e.runtimeErrType {
		return recv.v
	}
	p.unsupported("no method " + name)
	return nil
}

func (p *Path) unop(fr *frame, x *ssa.UnOp) Value {
	v := p.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return p.load(v)
	case token.NOT:
		return p.bd.Not(v.(*Term))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return p.bd.Neg(t)
		case float64:
			return -t
		case *FTerm:
			return &FTerm{p.bd.Neg(t.num), t.den}
		}
	case token.XOR:
		return p.bd.BNot(v.(*Term))
	case token.ARROW:
		return p.chanUnop(x, v)
	}
	p.unsupported("unop " + x.Op.String())
	return nil
}

func (p *Path) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	if _, ok := x.(poison); ok {
		p.unsupported("poison operand")
	}
	switch op {
	case token.EQL:
		return p.eqVals(t, yt, x, y)
	case token.NEQ:
		return p.bd.Not(p.eqVals(t, yt, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			p.unsupported("binop on poison")
		}
		w, signed, _ := intWidth(t)
		if w == 0 { // bool
			switch op {
			case token.AND, token.LAND:
				return p.bd.And(a, b)
			case token.OR, token.LOR:
				return p.bd.Or(a, b)
			}
			p.unsupported("bool op " + op.String())
		}
		switch op {
		case token.ADD:
			return p.bd.Bin(OAdd, a, b)
		case token.SUB:
			return p.bd.Bin(OSub, a, b)
		case token.MUL:
			return p.bd.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if p.branch(p.bd.Eq(b, p.bd.Const(b.w, 0))) {
				p.gopanicStr("runtime error: integer divide by zero")
			}
			return p.divide(op == token.REM, signed, a, b)
		case token.AND:
			return p.bd.Bin(OBAnd, a, b)
		case token.OR:
			return p.bd.Bin(OBOr, a, b)
		case token.XOR:
			return p.bd.Bin(OBXor, a, b)
		case token.AND_NOT:
			return p.bd.Bin(OBAnd, a, p.bd.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := intWidth(yt)
			if ysigned {
				if p.branch(p.bd.Cmp(OSlt, b, p.bd.Const(b.w, 0))) {
					p.gopanicStr("runtime error: negative shift amount")
				}
			}
			var c *Term
			if b.w > a.w {
				// saturate
				big := p.bd.Cmp(OUle, p.bd.Const(b.w, uint64(a.w)), b)
				c = p.bd.Ite(big, p.bd.Const(a.w, uint64(a.w)), p.bd.Extract(b, 0, a.w))
			} else {
				c = p.bd.ZExt(b, a.w)
			}
			if op == token.SHL {
				return p.bd.Bin(OShl, a, c)
			}
			if signed {
				return p.bd.Bin(OAShr, a, c)
			}
			return p.bd.Bin(OLShr, a, c)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			lt := op == token.LSS || op == token.GTR
			switch {
			case signed && lt:
				return p.bd.Cmp(OSlt, a, b)
			case signed:
				return p.bd.Cmp(OSle, a, b)
			case lt:
				return p.bd.Cmp(OUlt, a, b)
			}
			return p.bd.Cmp(OUle, a, b)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return p.concat(a, b)
		case token.LSS:
			return p.strLt(a, b)
		case token.GTR:
			return p.strLt(b, a)
		case token.LEQ:
			return p.bd.Not(p.strLt(b, a))
		case token.GEQ:
			return p.bd.Not(p.strLt(a, b))
		}
	case float64, *FTerm:
		return p.fbinop(op, x, y)
	}
	p.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

// divide keeps 64-bit divisions small when the operands provably are.
func (p *Path) divide(rem, signed bool, a, b *Term) *Term {
	if a.isConst() && b.isConst() || !signed && a.poss < 1<<24 {
		return p.rawDiv(rem, signed, a, b)
	}
	// (x*c)/c with x small
	if !rem && b.isConst() && a.op == OMul && a.b == b && a.w == 64 && signed {
		x := a.a
		lim := int64(math.MaxInt64) / sx(b.val, 64)
		if lim < 0 {
			lim = -lim
		}
		in := p.bd.And(p.bd.Cmp(OSle, p.cint(64, uint64(-lim)), x), p.bd.Cmp(OSle, x, p.cint(64, uint64(lim))))
		if p.mustHold(in) {
			return x
		}
	}
	if signed && a.w == 64 && a.poss>>63 != 0 {
		nonneg := p.bd.And(p.bd.Cmp(OSle, p.cint(64, 0), a), p.bd.Cmp(OSlt, p.cint(64, 0), b))
		if p.mustHold(nonneg) {
			signed = false
		}
	}
	if a.w == 64 && !signed {
		for _, w := range []uint8{16, 32, 40} {
			lim := p.cint(64, 1<<w)
			if p.mustHold(p.bd.And(p.bd.Cmp(OUlt, a, lim), p.bd.Cmp(OUlt, b, lim))) {
				r := p.rawDiv(rem, false, p.bd.Extract(a, 0, w), p.bd.Extract(b, 0, w))
				return p.bd.ZExt(r, 64)
			}
		}
	}
	return p.rawDiv(rem, signed, a, b)
}

func (p *Path) rawDiv(rem, signed bool, a, b *Term) *Term {
	switch {
	case rem && signed:
		return p.bd.Bin(OSRem, a, b)
	case rem:
		return p.bd.Bin(OURem, a, b)
	case signed:
		return p.bd.Bin(OSDiv, a, b)
	}
	return p.bd.Bin(OUDiv, a, b)
}

func (p *Path) eqVals(t, yt types.Type, x, y Value) *Term {
	// comparing an interface with a concrete value
	_, xi := x.(Iface)
	_, yi := y.(Iface)
	if xi && !yi {
		if y == nil {
			return p.eq(x, Iface{})
		}
		y = Iface{yt, y}
	} else if yi && !xi {
		if x == nil {
			return p.eq(Iface{}, y)
		}
		x = Iface{t, x}
	}
	if po, ok := x.(poison); ok {
		p.unsupported("poison: " + po.why)
	}
	if po, ok := y.(poison); ok {
		p.unsupported("poison: " + po.why)
	}
	return p.eq(x, y)
}

func (p *Path) concat(a, b Str) Str {
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	x, y := p.sbytes(a), p.sbytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Str{b: r}
}

func (p *Path) slice(fr *frame, x *ssa.Slice) Value {
	v := p.get(fr, x.X)
	bound := func(b ssa.Value, def int) int {
		if b == nil {
			return def
		}
		return p.sliceBound(p.get(fr, b).(*Term), b.Type())
	}
	switch s := v.(type) {
	case Str:
		lo := bound(x.Low, 0)
		hi := bound(x.High, s.len())
		if lo < 0 || hi < lo || hi > s.len() {
			p.gopanicStr("runtime error: slice bounds out of range")
		}
		if s.b != nil {
			return strOf(s.b[lo:hi])
		}
		return Str{s: s.s[lo:hi]}
	case SliceV:
		lo := bound(x.Low, 0)
		hi := bound(x.High, len(s.a))
		max := bound(x.Max, cap(s.a))
		if lo < 0 || hi < lo || max < hi || max > cap(s.a) {
			p.gopanicStr("runtime error: slice bounds out of range")
		}
		if s.a == nil {
			return s
		}
		return SliceV{s.a[lo:hi:max]}
	default:
		c := p.ptr(v)
		a, ok := (*c).(Array)
		if !ok {
			p.unsupported("slice of array pointer")
		}
		lo := bound(x.Low, 0)
		hi := bound(x.High, len(a))
		max := bound(x.Max, len(a))
		if lo < 0 || hi < lo || max < hi || max > len(a) {
			p.gopanicStr("runtime error: slice bounds out of range")
		}
		return SliceV{[]Value(a)[lo:hi:max]}
	}
}

func (p *Path) sliceBound(t *Term, ty types.Type) int {
	w, sgn, _ := intWidth(ty)
	v := p.concretize(t)
	if sgn {
		return int(sx(v, w))
	}
	return int(v)
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	for _, a := range args {
		if po, ok := a.(poison); ok {
			p.unsupported("poison: " + po.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return p.intv(x.len())
		case SliceV:
			return p.intv(len(x.a))
		case Array:
			return p.intv(len(x))
		case *MapV:
			p.monMap(x, false)
			return p.intv(x.length())
		case *NativeObj:
			if x == nil {
				return p.intv(0)
			}
			return p.intv(len(p.chanOf(x).buf))
		case *Value:
			return p.intv(len((*x).(Array)))
		}
	case "close":
		c := p.chanOf(args[0])
		if c == nil {
			p.gopanicStr("close of nil channel")
		}
		if c.closed {
			p.gopanicStr("close of closed channel")
		}
		c.closed = true
		return nil
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return p.intv(cap(x.a))
		case Array:
			return p.intv(len(x))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			add = y.a
		case Str:
			add = p.termsVal(p.sbytes(y)).a
		}
		if len(add) == 0 {
			return s
		}
		cp := make([]Value, len(add))
		for i, e := range add {
			cp[i] = copyVal(e)
		}
		if y, ok := args[1].(SliceV); ok && p.w.mon != nil {
			for i := range y.a {
				p.w.mon.access(p, &y.a[i], false)
			}
		}
		if p.w.mon != nil && cap(s.a) < len(s.a)+len(cp) {
			for i := range s.a {
				p.w.mon.access(p, &s.a[i], false)
			}
		}
		if p.w.mon != nil && cap(s.a) >= len(s.a)+len(cp) {
			full := s.a[:len(s.a)+len(cp)]
			for i := range cp {
				p.w.mon.access(p, &full[len(s.a)+i], true)
			}
		}
		return SliceV{append(s.a, cp...)}
	case "copy":
		dst := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			src = y.a
		case Str:
			src = p.termsVal(p.sbytes(y)).a
		}
		n := len(src)
		if len(dst.a) < n {
			n = len(dst.a)
		}
		tmp := make([]Value, n)
		if p.w.mon != nil {
			_, str := args[1].(Str)
			for i := range tmp {
				if !str {
					p.w.mon.access(p, &src[i], false)
				}
				p.w.mon.access(p, &dst.a[i], true)
			}
		}
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			storeVal(&dst.a[i], tmp[i])
		}
		return p.intv(n)
	case "delete":
		m := args[0].(*MapV)
		p.monMap(m, true)
		if m != nil {
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				p.monMap(x, true)
				*x = *newMap()
			}
		case SliceV:
			for i := range x.a {
				x.a[i] = p.zeroLike(x.a[i])
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, msg: p.panicText(v), trace: p.where()})
	case "recover":
		// the deferred function's caller is the panicking frame
		if len(p.frames) >= 2 {
			caller := p.frames[len(p.frames)-2]
			if caller.panicking {
				caller.panicking = false
				return caller.panicVal.v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t0, ok := args[0].(*Term)
		if ok {
			_, sgn, _ := intWidth(c.Args[0].Type())
			op := OUlt
			if sgn {
				op = OSlt
			}
			r := t0
			for _, a := range args[1:] {
				t := a.(*Term)
				lt := p.bd.Cmp(op, t, r)
				if b.Name() == "max" {
					lt = p.bd.Cmp(op, r, t)
				}
				r = p.bd.Ite(lt, t, r)
			}
			return r
		}
	case "ssa:wrapnilchk":
		if x, ok := args[0].(*Value); ok && x == nil {
			p.gopanicStr("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := p.intOf(args[1])
		_ = n
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

func (p *Path) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return p.bd.Const(x.w, 0)
	case Str:
		return Str{}
	case *Value:
		return (*Value)(nil)
	case SliceV:
		return SliceV{}
	case Iface:
		return Iface{}
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = p.zeroLike(x[i])
		}
		return r
	}
	p.unsupported("clear")
	return nil
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	if po, ok := v.(poison); ok {
		p.unsupported("poison: " + po.why)
	}
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			el := t.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				b := p.sbytes(s)
				a := make([]Value, len(b))
				for i := range b {
					a[i] = b[i]
				}
				return SliceV{a}
			}
			// []rune
			var a []Value
			if cs, ok := s.concrete(); ok {
				for _, r := range cs {
					a = append(a, p.cint(32, uint64(r)))
				}
			} else {
				for i := 0; i < len(s.b); {
					r, n := p.decodeRune(s.b[i:])
					a = append(a, r)
					i += n
				}
			}
			if a == nil {
				a = []Value{}
			}
			return SliceV{a}
		}
		return v
	case *types.Pointer:
		return v
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case SliceV:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return strOf(sliceTerms(x))
				}
				var r []*Term
				for _, e := range x.a {
					r = append(r, p.encodeRune(e.(*Term))...)
				}
				return strOf(r)
			case *Term:
				return strOf(p.encodeRune(x))
			}
		}
		w, _, isInt := intWidth(t)
		_, fsigned, fromInt := intWidth(fu)
		switch x := v.(type) {
		case *Term:
			if isInt && fromInt {
				if w <= x.w {
					return p.bd.Extract(x, 0, w)
				}
				if fsigned {
					return p.bd.SExt(x, w)
				}
				return p.bd.ZExt(x, w)
			}
			if t.Info()&types.IsFloat != 0 {
				if x.isConst() {
					if fsigned {
						return float64(sx(x.val, x.w))
					}
					return float64(x.val)
				}
				y := x
				if x.w < 64 {
					if fsigned {
						y = p.bd.SExt(x, 64)
					} else {
						y = p.bd.ZExt(x, 64)
					}
				}
				p.needSmall(y)
				return &FTerm{num: y}
			}
		case float64:
			if isInt {
				_, sgn, _ := intWidth(t)
				if !sgn {
					if x < 0 {
						return p.cint(w, uint64(int64(x)))
					}
					return p.cint(w, uint64(x))
				}
				return p.cint(w, uint64(int64(x)))
			}
			if t.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		case *FTerm:
			if isInt {
				n := x.num
				if x.den != nil {
					n = p.bd.Bin(OSDiv, x.num, x.den)
				}
				return p.bd.Extract(n, 0, w)
			}
			return x
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	p.unsupported(fmt.Sprintf("convert %s to %s", from, to))
	return nil
}

func (p *Path) encodeRune(r *Term) []*Term {
	if r.isConst() {
		v := sx(r.val, r.w)
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		var out []*Term
		for _, c := range []byte(string(rune(v))) {
			out = append(out, p.cint(8, uint64(c)))
		}
		return out
	}
	if r.poss < 0x80 || p.branch(p.bd.Cmp(OUlt, r, p.cint(r.w, 0x80))) {
		return []*Term{p.bd.Extract(r, 0, 8)}
	}
	return p.encodeRune(p.cint(r.w, p.concretize(r)))
}

// needSmall is the side condition of the exact rational encoding of floats.
func (p *Path) needSmall(t *Term) {
	lim := p.cint(64, 1<<40)
	neg := p.cint(64, ^uint64(1<<40)+1)
	if !p.mustHold(p.bd.And(p.bd.Cmp(OSlt, neg, t), p.bd.Cmp(OSlt, t, lim))) {
		p.unsupported("float of an integer that may exceed 2^40")
	}
}

func (p *Path) toF(v Value) *FTerm {
	switch x := v.(type) {
	case *FTerm:
		return x
	case float64:
		if x == math.Trunc(x) && math.Abs(x) < 1<<40 {
			return &FTerm{num: p.cint(64, uint64(int64(x)))}
		}
	}
	p.unsupported("symbolic float arithmetic")
	return nil
}

func (p *Path) fbinop(op token.Token, x, y Value) Value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return p.boolv(a < b)
		case token.LEQ:
			return p.boolv(a <= b)
		case token.GTR:
			return p.boolv(a > b)
		case token.GEQ:
			return p.boolv(a >= b)
		}
	}
	f, g := p.toF(x), p.toF(y)
	switch op {
	case token.QUO:
		if f.den == nil && g.den == nil {
			ok := p.bd.And(p.bd.Cmp(OSlt, p.cint(64, 0), g.num), p.bd.Cmp(OSle, g.num, p.cint(64, 1024)))
			if !p.mustHold(ok) {
				p.unsupported("float division by a value not in 1..1024")
			}
			return &FTerm{f.num, g.num}
		}
	case token.ADD, token.SUB, token.MUL:
		if f.den == nil && g.den == nil {
			o := map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul}[op]
			r := p.bd.Bin(o, f.num, g.num)
			p.needSmall(r)
			return &FTerm{num: r}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		l, r := f.num, g.num
		if f.den != nil || g.den != nil {
			if f.den != nil && g.den != nil {
				p.unsupported("comparison of two quotients")
			}
			if f.den != nil {
				r = p.bd.Bin(OMul, r, f.den)
			} else {
				l = p.bd.Bin(OMul, l, g.den)
			}
		}
		switch op {
		case token.LSS:
			return p.bd.Cmp(OSlt, l, r)
		case token.LEQ:
			return p.bd.Cmp(OSle, l, r)
		case token.GTR:
			return p.bd.Cmp(OSlt, r, l)
		}
		return p.bd.Cmp(OSle, r, l)
	}
	p.unsupported("symbolic float " + op.String())
	return nil
}

// floorDiv for den>0.
func (p *Path) floorDiv(a, b *Term) *Term {
	q := p.divide(false, true, a, b)
	r := p.bd.Bin(OSub, a, p.bd.Bin(OMul, q, b))
	neg := p.bd.Cmp(OSlt, r, p.cint(64, 0))
	if p.mustHold(p.bd.Not(p.bd.Cmp(OSlt, a, p.cint(64, 0)))) {
		return q
	}
	return p.bd.Ite(neg, p.bd.Bin(OSub, q, p.cint(64, 1)), q)
}
