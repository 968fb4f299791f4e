package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path.
type Decision struct {
	k uint8 // 0/1: branch false/true, 2: choice, 3: concretise ==, 4: concretise !=
	v uint64
}

type Input struct {
	Name  string
	Kind  string // int, bool, byte, str, bytes, choose
	Terms []*Term
	W     int
	Sgn   bool
	Val   int // choose
	Key   bool
}

// pathEnd is thrown to stop a path.
type pathEnd struct {
	kind string // "infeasible", "unsupported", "limit", "stop"
	why  string
}

// targetPanic is a Go panic of the program under test.
type targetPanic struct {
	v     Value
	msg   string
	trace string
}

type crashSignal struct{}

// Violation is a satisfiable negated assertion.
type Violation struct {
	Assert  string
	Known   string // known-finding key the failing region is attributed to
	Msg     string
	Inputs  []ReplayInput
	Env     []ReplayInput
	UF      bool
	Hang    bool
	Race    bool
	Sched   bool // depends on the schedule of two operations
	Harness string
	Decs    []Decision
	Trace   string
}

type ReplayInput struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Int  int64    `json:"int"`
	Bs   []byte   `json:"bytes,omitempty"`
	_    struct{} `json:"-"`
}

type Witness struct {
	Inputs  []ReplayInput
	Notes   []NoteVal
	UF      bool
	Decs    int
	Partial bool // the path left the encoding; only its assertions count
}
type NoteVal struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Work is a path still to explore.
type Work struct {
	prefix []Decision
	model  Model
}

// Harness is one symbolic entry point being explored.
type Harness struct {
	eng   *Engine
	name  string
	fn    *ssa.Function
	mu    sync.Mutex
	cond  *sync.Cond
	stack []Work
	busy  int
	stop  bool

	deadline time.Time
	maxPaths int

	// results
	paths, completed, infeasible int
	incomplete                   map[string]int
	asserts                      map[string]*AssertStat
	covers                       map[string]int
	bounds                       map[string]bool
	stubs                        map[string]int
	funcs                        map[string]bool
	transitions                  int64
	viol                         []*Violation
	violCount                    map[string]int
	wits                         []*Witness
	witSeen                      int
	partial                      []*Witness
	truncated                    bool
	depthMax                     int
}

type AssertStat struct {
	Checked, Trivial, Proved, Violated, Unknown int
}

type Path struct {
	jfull    bool // snapshots of every exported field
	leafMemo map[*Term]*[256]bool
	h        *Harness
	e        *Engine
	bd       *Builder
	sol      *Solver
	model    Model
	prefix   []Decision
	decs     []Decision
	facts    map[*Term]bool
	pend     []*Term // PC not yet sent to the solver
	pc       []*Term
	begun    bool

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	tolerant int
	steps    int
	depth    int
	inputs   []*Input
	env      []*Input
	names    map[string]int
	notes    []noteRec
	bounds   map[string]bool
	asserts  map[string]*AssertStat
	covers   map[string]int
	funcs    map[*ssa.Function]bool
	stubs    map[string]int
	viol     []*Violation
	ufUsed   bool
	frames   []*frame

	w *World // environment model
}

type noteRec struct {
	name string
	v    Value
}

func (p *Path) unsupported(why string) {
	panic(pathEnd{"unsupported", why + " @ " + p.where()})
}

func (p *Path) where() string {
	if len(p.frames) == 0 {
		return "?"
	}
	var parts []string
	for i := len(p.frames) - 1; i >= 0 && len(parts) < 4; i-- {
		parts = append(parts, p.frames[i].fn.String())
	}
	return strings.Join(parts, " < ")
}

func (p *Path) fresh(w uint8, name string) *Term {
	n := p.names[name]
	p.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return p.bd.Var(w, name)
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	p.learn(t, true)
	p.pc = append(p.pc, t)
	p.pend = append(p.pend, t)
}

func (p *Path) learn(t *Term, v bool) {
	for t.op == ONot {
		t = t.a
		v = !v
	}
	if o, ok := p.facts[t]; ok && o == v {
		return
	}
	p.facts[t] = v
	if t.op == OAnd && v {
		p.learn(t.a, true)
		p.learn(t.b, true)
	}
	if t.op == OOr && !v {
		p.learn(t.a, false)
		p.learn(t.b, false)
	}
}

// known tells what the path's facts say about t.
func (p *Path) known(t *Term) (bool, bool) {
	var memo map[*Term]uint8
	n := 0
	var rec func(t *Term) (bool, bool)
	rec = func(t *Term) (bool, bool) {
		if t.isConst() {
			return t.val == 1, true
		}
		neg := false
		for t.op == ONot {
			t = t.a
			neg = !neg
		}
		if v, ok := p.facts[t]; ok {
			return v != neg, true
		}
		if t.op != OAnd && t.op != OOr {
			return false, false
		}
		if m, ok := memo[t]; ok {
			return (m == 1) != neg, m != 2
		}
		and := t.op == OAnd
		a, ok1 := rec(t.a)
		var r, ok bool
		if ok1 && a != and {
			r, ok = a, true
		} else {
			b, ok2 := rec(t.b)
			if ok2 && b != and {
				r, ok = b, true
			} else if ok1 && ok2 {
				r, ok = and, true
			}
		}
		if n++; n > 16 {
			if memo == nil {
				memo = map[*Term]uint8{}
			}
			m := uint8(2)
			if ok {
				m = b2u(r)
			}
			memo[t] = m
		}
		return r != neg && ok, ok
	}
	return rec(t)
}

func (p *Path) flush() {
	if !p.begun {
		p.sol.Begin()
		p.begun = true
	}
	for _, t := range p.pend {
		p.sol.Assert(t)
	}
	p.pend = p.pend[:0]
}

// query decides PC and extra.
func (p *Path) query(extra *Term) (Res, Model) {
	if extra != nil {
		if v, ok := p.known(extra); ok && !v {
			return Unsat, nil
		}
	}
	p.flush()
	r, m := p.sol.Check(extra)
	if r != Sat || !p.ufUsed || len(p.decs) < len(p.prefix) {
		return r, m
	}
	// Uninterpreted functions stand for hash functions: a model which gives
	// one a value it does not have is excluded by that instance of its graph.
	for n := 0; n < 40; n++ {
		ls := p.lemmas(m)
		if len(ls) == 0 {
			break
		}
		for _, l := range ls {
			p.addPC(l)
			if p.evalBool(l) {
				continue
			}
			p.flush()
			switch r2, m2 := p.sol.Check(nil); r2 {
			case Unsat:
				panic(pathEnd{"infeasible", ""})
			case Unknown:
				return r2, nil
			default:
				p.model = m2
			}
		}
		p.flush()
		if r, m = p.sol.Check(extra); r != Sat {
			break
		}
	}
	return r, m
}

func (p *Path) evalBool(t *Term) bool {
	p.bd.ResetEval()
	return p.bd.Eval(t, p.model) == 1
}
func (p *Path) eval(t *Term) uint64 {
	p.bd.ResetEval()
	return p.bd.Eval(t, p.model)
}

func (p *Path) nextDec() (Decision, bool) {
	if len(p.decs) < len(p.prefix) {
		return p.prefix[len(p.decs)], true
	}
	return Decision{}, false
}

func (p *Path) push(d Decision, m Model) {
	pre := make([]Decision, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	p.h.mu.Lock()
	p.h.stack = append(p.h.stack, Work{pre, m})
	p.h.mu.Unlock()
	p.h.cond.Signal()
}

// branch decides a condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if v, ok := p.known(c); ok {
		return v
	}
	if d, ok := p.nextDec(); ok {
		if d.k > 1 {
			panic(fmt.Sprintf("decision mismatch: branch vs %d", d.k))
		}
		v := d.k == 1
		p.decs = append(p.decs, d)
		p.take(c, v)
		return v
	}
	side := p.evalBool(c)
	other := c
	if side {
		other = p.bd.Not(c)
	}
	r, m := p.query(other)
	switch r {
	case Sat:
		p.push(Decision{k: b2u(!side)}, m)
	case Unknown:
		p.incomplete("solver unknown on a branch")
	}
	p.decs = append(p.decs, Decision{k: b2u(side)})
	p.take(c, side)
	return side
}

func b2u(b bool) uint8 {
	if b {
		return 1
	}
	return 0
}

func (p *Path) take(c *Term, v bool) {
	if v {
		p.addPC(c)
	} else {
		p.addPC(p.bd.Not(c))
	}
}

// choose forks n ways.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.nextDec(); ok {
		if d.k != 2 {
			panic("decision mismatch: choose")
		}
		p.decs = append(p.decs, d)
		return int(d.v)
	}
	m := p.model.clone()
	for i := n - 1; i >= 1; i-- {
		p.push(Decision{2, uint64(i)}, m)
	}
	p.decs = append(p.decs, Decision{2, 0})
	return 0
}

// concretize picks the values of t one after the other.
func (p *Path) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if n > 300 {
			panic(pathEnd{"limit", "too many values to concretise @ " + p.where()})
		}
		if d, ok := p.nextDec(); ok {
			p.decs = append(p.decs, d)
			k := p.bd.Const(t.w, d.v)
			switch d.k {
			case 3:
				p.addPC(p.bd.Eq(t, k))
				return d.v
			case 4:
				p.addPC(p.bd.Not(p.bd.Eq(t, k)))
				continue
			default:
				panic("decision mismatch: concretise")
			}
		}
		v := p.eval(t)
		k := p.bd.Const(t.w, v)
		e := p.bd.Eq(t, k)
		r, m := p.query(p.bd.Not(e))
		switch r {
		case Sat:
			p.push(Decision{4, v}, m)
		case Unknown:
			p.incomplete("solver unknown on a concretisation")
		}
		p.decs = append(p.decs, Decision{3, v})
		p.addPC(e)
		return v
	}
}

func (p *Path) incomplete(why string) {
	p.h.mu.Lock()
	p.h.incomplete[why]++
	p.h.mu.Unlock()
}

// assume restricts the path.
func (p *Path) assume(c *Term) {
	if v, ok := p.known(c); ok {
		if !v {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if len(p.decs) < len(p.prefix) {
		p.addPC(c) // the prefix's model satisfies it
		return
	}
	if !p.evalBool(c) {
		r, m := p.query(c)
		switch r {
		case Unsat:
			panic(pathEnd{"infeasible", ""})
		case Unknown:
			panic(pathEnd{"limit", "solver unknown on an assumption"})
		}
		p.model = m
	}
	p.addPC(c)
}

// mustHold asks whether c holds on the whole path (used for the side
// conditions of exact encodings).
func (p *Path) mustHold(c *Term) bool {
	if v, ok := p.known(c); ok {
		return v
	}
	r, _ := p.query(p.bd.Not(c))
	return r == Unsat
}

// assert checks c for every value of the path; region (may be nil) marks the
// inputs whose failure is the known finding kf.
func (p *Path) assert(c *Term, id, kf string, region *Term) {
	st := p.asserts[id]
	if st == nil {
		st = &AssertStat{}
		p.asserts[id] = st
	}
	if len(p.decs) < len(p.prefix) {
		// a sibling path with the same history has discharged it; keep going
		if v, ok := p.known(c); ok && !v {
			panic(pathEnd{"stop", ""})
		}
		p.addPC(c)
		return
	}
	st.Checked++
	if v, ok := p.known(c); ok && v {
		st.Trivial++
		return
	}
	neg := p.bd.Not(c)
	bad := neg
	if region != nil {
		r, m := p.query(p.bd.And(neg, region))
		if r == Sat {
			st.Violated++
			p.violation(id, kf, m, "")
		}
		bad = p.bd.And(neg, p.bd.Not(region))
	}
	r, m := p.query(bad)
	switch r {
	case Unsat:
		if region == nil {
			st.Proved++
			p.learn(c, true)
			return
		}
		st.Proved++
	case Sat:
		st.Violated++
		p.violation(id, "", m, "")
	default:
		st.Unknown++
		p.incomplete("solver unknown on assertion " + id)
	}
	// continue on the values for which it holds
	p.assume(c)
}

func (p *Path) violation(id, kf string, m Model, msg string) {
	v := &Violation{Assert: id, Known: kf, Msg: msg, Inputs: p.replayInputs(m), UF: p.ufUsed, Sched: p.w.both, Harness: p.h.name, Trace: p.where()}
	p.viol = append(p.viol, v)
}

func (p *Path) replayInputs(m Model) []ReplayInput {
	p.bd.ResetEval()
	var out []ReplayInput
	for _, in := range p.inputs {
		r := ReplayInput{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "choose":
			r.Int = int64(in.Val)
		case "str", "bytes":
			r.Bs = make([]byte, len(in.Terms))
			for i, t := range in.Terms {
				r.Bs[i] = byte(p.bd.Eval(t, m))
			}
		default:
			v := p.bd.Eval(in.Terms[0], m)
			r.Int = int64(v)
			if in.Sgn {
				r.Int = sx(v, in.Terms[0].w)
			}
		}
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------- explorer

func NewHarness(e *Engine, fn *ssa.Function) *Harness {
	h := &Harness{eng: e, name: fn.Name(), fn: fn, incomplete: map[string]int{}, asserts: map[string]*AssertStat{},
		covers: map[string]int{}, bounds: map[string]bool{}, stubs: map[string]int{}, funcs: map[string]bool{}, violCount: map[string]int{}}
	h.cond = sync.NewCond(&h.mu)
	h.stack = []Work{{nil, Model{}}}
	return h
}

func (h *Harness) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	sol, err := NewSolver("z3", 20000)
	if err != nil {
		panic(err)
	}
	defer func() { sol.Close() }()
	for {
		h.mu.Lock()
		for len(h.stack) == 0 && h.busy > 0 && !h.stop {
			h.cond.Wait()
		}
		if h.stop || len(h.stack) == 0 {
			h.mu.Unlock()
			h.cond.Broadcast()
			return
		}
		if h.paths >= h.maxPaths || time.Now().After(h.deadline) {
			h.truncated = true
			h.stop = true
			h.mu.Unlock()
			h.cond.Broadcast()
			return
		}
		w := h.stack[len(h.stack)-1]
		h.stack = h.stack[:len(h.stack)-1]
		h.busy++
		h.paths++
		h.mu.Unlock()
		h.runPath(w, sol)
		h.mu.Lock()
		h.busy--
		h.mu.Unlock()
		h.cond.Broadcast()
	}
}

func (h *Harness) runPath(w Work, sol *Solver) {
	p := &Path{h: h, e: h.eng, bd: NewBuilder(), sol: sol, model: w.model.clone(), prefix: w.prefix,
		facts: map[*Term]bool{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		names: map[string]int{}, asserts: map[string]*AssertStat{}, covers: map[string]int{},
		funcs: map[*ssa.Function]bool{}, stubs: map[string]int{}, bounds: map[string]bool{}}
	p.w = newWorld(p.bd)
	kind, why := "done", ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case pathEnd:
				kind, why = x.kind, x.why
			case targetPanic:
				kind, why = "panic", x.msg+" @ "+x.trace
			case crashSignal:
				kind, why = "unsupported", "crash outside Crashable"
			default:
				if h.eng.debug {
					panic(r)
				}
				kind, why = "unsupported", fmt.Sprintf("engine: %v @ %s", r, p.where())
			}
		}()
		p.callFunction(h.fn, nil, nil)
	}()
	p.endGors()
	if kind == "panic" {
		// an uncaught panic of the code under test
		st := p.asserts["nopanic"]
		if st == nil {
			st = &AssertStat{}
			p.asserts["nopanic"] = st
		}
		st.Checked++
		st.Violated++
		m := p.model
		p.violation("nopanic", "", m, why)
	}
	if kind == "limit" && strings.HasPrefix(why, "steps") {
		p.violation("terminates", "", p.model, why)
		p.viol[len(p.viol)-1].Hang = true
	}
	var wit *Witness
	if (kind == "unsupported" || kind == "limit") && len(p.viol) == 0 && len(p.inputs) > 0 {
		wit = &Witness{Inputs: p.replayInputs(p.model), Partial: true}
	}
	if kind == "done" && len(p.viol) == 0 {
		wit = &Witness{Inputs: p.replayInputs(p.model), UF: p.ufUsed, Decs: len(p.decs)}
		p.bd.ResetEval()
		for _, n := range p.notes {
			wit.Notes = append(wit.Notes, NoteVal{n.name, p.render(n.v)})
		}
	}
	if p.begun {
		sol.End()
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.transitions += int64(len(p.decs) - len(p.prefix) + 1)
	if len(p.decs) > h.depthMax {
		h.depthMax = len(p.decs)
	}
	for id, s := range p.asserts {
		t := h.asserts[id]
		if t == nil {
			t = &AssertStat{}
			h.asserts[id] = t
		}
		t.Checked += s.Checked
		t.Trivial += s.Trivial
		t.Proved += s.Proved
		t.Violated += s.Violated
		t.Unknown += s.Unknown
	}
	for f := range p.funcs {
		h.funcs[fnName(f)] = true
	}
	for s, n := range p.stubs {
		h.stubs[s] += n
	}
	for s := range p.bounds {
		h.bounds[s] = true
	}
	for s, n := range p.covers {
		h.covers[s] += n
	}
	for _, v := range p.viol {
		key := v.Assert + "|" + v.Known
		h.violCount[key]++
		if h.violCount[key] <= 12 || v.Sched && h.violCount[key] <= 600 {
			h.viol = append(h.viol, v)
		}
	}
	switch kind {
	case "done":
		h.completed++
		if wit != nil {
			h.witSeen++
			// spread sample: keep the first 24, then every path with a
			// doubling stride
			if len(h.wits) < 24 {
				h.wits = append(h.wits, wit)
			} else if h.witSeen%(1+h.witSeen/24) == 0 && len(h.wits) < 96 {
				h.wits = append(h.wits, wit)
			}
		}
	case "infeasible", "stop":
		h.infeasible++
	case "panic":
		h.completed++
	default:
		h.incomplete[kind+": "+why]++
		if wit != nil && len(h.partial) < 40 {
			h.partial = append(h.partial, wit)
		}
		if h.eng.verbose {
			logf("%s: path %s: %s", h.name, kind, why)
		}
	}
	if h.violTotalLocked() > 400 {
		h.stop = true
		h.truncated = true
	}
}

func (h *Harness) violTotalLocked() int {
	n := 0
	for k, c := range h.violCount {
		if strings.HasSuffix(k, "|") { // findings set apart do not count
			n += c
		}
	}
	return n
}

func (h *Harness) Explore(workers int) {
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go h.worker(&wg)
	}
	wg.Wait()
}

func fnName(f *ssa.Function) string { return f.RelString(nil) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = types.Typ
