package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The monitor records the memory accesses and lock operations of two
// operations which are executed one after the other. A query over order
// variables then decides whether any schedule consistent with the locks, in
// which every earlier read still returns what it returned in the recorded
// execution, leads to a state in which both threads are about to access the
// same memory, one of them writing (a data race), or to wait for each other
// (a deadlock).

type mev struct {
	kind  byte // 'r', 'w': access, '+', '-': acquire and release
	loc   any
	mode  int // of locks: 1 shared, 2 exclusive
	site  string
	pos   int
	last  int // index of the own write a read returns, or -1
	other int // index of the other thread's write it returns, or -1
	ord   *Term
}

type Monitor struct {
	thread int
	evs    [2][]*mev
	seg    map[any]byte // accesses since the last lock operation: 1 read, 2 written
}

func (m *Monitor) reset(t int) { m.thread, m.seg = t, map[any]byte{} }

func (p *Path) site() string {
	for i := len(p.frames) - 1; i >= 0; i-- {
		fr := p.frames[i]
		if fr.fn.Pkg == nil || !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), p.e.modpath) {
			continue
		}
		s := fr.fn.String()
		if fr.block != nil {
			pos := fr.fn.Pos()
			if fr.cur != nil && fr.cur.Pos().IsValid() {
				pos = fr.cur.Pos()
			}
			if q := p.e.prog.Fset.Position(pos); q.IsValid() {
				s += fmt.Sprintf(" (%s:%d)", filepath.Base(q.Filename), q.Line)
			}
		}
		return s
	}
	return "?"
}

func (m *Monitor) add(p *Path, loc any, write bool) {
	b, k := byte(1), byte('r')
	if write {
		b, k = 2, 'w'
	}
	if m.seg[loc]&b != 0 || !write && m.seg[loc] != 0 {
		return
	}
	m.seg[loc] |= b
	m.evs[m.thread] = append(m.evs[m.thread], &mev{kind: k, loc: loc, site: p.site()})
}

// access records an access to a cell, or to the cells it is made of.
func (m *Monitor) access(p *Path, c *Value, write bool) {
	switch x := (*c).(type) {
	case Struct:
		for i := range x {
			m.access(p, &x[i], write)
		}
		if len(x) > 0 {
			return
		}
	case Array:
		for i := range x {
			m.access(p, &x[i], write)
		}
		if len(x) > 0 {
			return
		}
	}
	m.add(p, c, write)
}

func (m *Monitor) accessObj(p *Path, o *MapV, write bool) { m.add(p, o, write) }
func (m *Monitor) fresh(c *Value)                         {}

func (p *Path) monLock(c *Value, mode int, acq bool) {
	m := p.w.mon
	if m == nil {
		return
	}
	k := byte('-')
	if acq {
		k = '+'
	}
	m.seg = map[any]byte{}
	m.evs[m.thread] = append(m.evs[m.thread], &mev{kind: k, loc: c, mode: mode, site: p.site()})
}

// monNative records a call of a native method which is not safe for
// concurrent use.
func (p *Path) monNative(fn *ssa.Function, args []Value) {
	if len(args) == 0 {
		return
	}
	n := fn.String()
	if strings.HasPrefix(n, "(*math/rand.Rand).") {
		if c, ok := args[0].(*Value); ok && c != nil {
			p.w.mon.access(p, c, true)
		}
	}
}

func (p *Path) stat(id string) *AssertStat {
	st := p.asserts[id]
	if st == nil {
		st = &AssertStat{}
		p.asserts[id] = st
	}
	st.Checked++
	return st
}

// race executes two operations one after the other and decides every schedule
// of them.
func (p *Path) race(name string, a, b Value) {
	m := &Monitor{}
	ord := p.choose(2)
	p.inputs = append(p.inputs, &Input{Name: p.inName(name), Kind: "choose", Val: ord})
	ops := []Value{a, b}
	if ord == 1 {
		ops = []Value{b, a}
	}
	for t, f := range ops {
		m.reset(t)
		p.w.mon = m
		p.call(f, []Value{p.intv(0)})
		p.w.mon = nil
		for _, l := range p.w.locks {
			if l.w > 0 || l.r > 0 {
				p.deadlock("an operation returns with a lock held")
			}
		}
	}
	p.schedules(m)
}

type region struct {
	acq, rel *mev // rel may be nil
	mode     int
}

func (p *Path) schedules(m *Monitor) {
	bd := p.bd
	// what both threads touch, one of them writing
	type use struct{ r, w [2]bool }
	uses := map[any]*use{}
	for t := range m.evs {
		for _, e := range m.evs[t] {
			if e.kind == '+' || e.kind == '-' {
				continue
			}
			u := uses[e.loc]
			if u == nil {
				u = &use{}
				uses[e.loc] = u
			}
			if e.kind == 'w' {
				u.w[t] = true
			} else {
				u.r[t] = true
			}
		}
	}
	var evs [2][]*mev
	for t := range m.evs {
		for _, e := range m.evs[t] {
			if e.kind == 'r' || e.kind == 'w' {
				u := uses[e.loc]
				if !(u.w[0] && (u.w[1] || u.r[1]) || u.w[1] && u.r[0]) {
					continue
				}
			}
			e.pos = len(evs[t])
			evs[t] = append(evs[t], e)
		}
	}
	p.e.monEvents.Add(int64(len(evs[0]) + len(evs[1])))
	if len(evs[0]) > 60000 || len(evs[1]) > 60000 {
		p.incomplete("too many events for a schedule query")
		return
	}
	const w = 16
	num := func(i int) *Term { return bd.Const(w, uint64(i)) }
	P := [2]*Term{p.fresh(w, "at"), p.fresh(w, "at")}
	ord := func(e *mev) *Term {
		if e.ord == nil {
			e.ord = p.fresh(w, "ord")
		}
		return e.ord
	}
	lt := func(a, b *Term) *Term { return bd.Cmp(OUlt, a, b) }
	done := func(t int, e *mev) *Term { return lt(num(e.pos), P[t]) }
	var cs []*Term
	imp := func(a, b *Term) { cs = append(cs, bd.Or(bd.Not(a), b)) }

	for t := range P {
		cs = append(cs, lt(P[t], num(len(evs[t])+1)))
	}
	// locks exclude each other
	var regs [2]map[any][]*region
	for t := range evs {
		regs[t] = map[any][]*region{}
		for _, e := range evs[t] {
			switch e.kind {
			case '+':
				regs[t][e.loc] = append(regs[t][e.loc], &region{acq: e, mode: e.mode})
			case '-':
				rs := regs[t][e.loc]
				for i := len(rs) - 1; i >= 0; i-- {
					if rs[i].rel == nil && rs[i].mode == e.mode {
						rs[i].rel = e
						break
					}
				}
			}
		}
	}
	for l, r0 := range regs[0] {
		for _, a := range r0 {
			for _, b := range regs[1][l] {
				if a.mode == 1 && b.mode == 1 {
					continue
				}
				ok := bd.F
				if a.rel != nil {
					ok = bd.Or(ok, bd.And(done(0, a.rel), lt(ord(a.rel), ord(b.acq))))
				}
				if b.rel != nil {
					ok = bd.Or(ok, bd.And(done(1, b.rel), lt(ord(b.rel), ord(a.acq))))
				}
				imp(bd.And(done(0, a.acq), done(1, b.acq)), ok)
			}
		}
	}
	// reads return what they returned
	writes := [2]map[any][]*mev{{}, {}}
	for t := range evs {
		for _, e := range evs[t] {
			if e.kind == 'w' {
				writes[t][e.loc] = append(writes[t][e.loc], e)
			}
		}
	}
	for t := range evs {
		last := map[any]*mev{}
		for _, e := range evs[t] {
			if e.kind == 'w' {
				last[e.loc] = e
			}
			if e.kind != 'r' {
				continue
			}
			ows := writes[1-t][e.loc]
			if len(ows) == 0 {
				continue
			}
			own := last[e.loc]
			if own == nil && t == 1 {
				x := ows[len(ows)-1]
				imp(done(t, e), bd.And(done(0, x), lt(ord(x), ord(e))))
				continue
			}
			for _, x := range ows {
				bad := bd.And(done(1-t, x), lt(ord(x), ord(e)))
				if own != nil {
					bad = bd.And(bad, lt(ord(own), ord(x)))
				}
				imp(done(t, e), bd.Not(bad))
			}
		}
	}
	// program order, and distinct positions across the threads
	for t := range evs {
		var prev *mev
		for _, e := range evs[t] {
			if e.ord == nil {
				continue
			}
			// odd and even positions keep the threads apart
			cs = append(cs, bd.Eq(bd.Extract(e.ord, 0, 1), bd.Const(1, uint64(t))))
			if prev != nil {
				cs = append(cs, lt(prev.ord, e.ord))
			}
			prev = e
		}
	}
	base := p.conj(cs)

	type pair struct{ a, b *mev }
	at := func(x pair) *Term { return bd.And(bd.Eq(P[0], num(x.a.pos)), bd.Eq(P[1], num(x.b.pos))) }
	decide := func(id string, pairs []pair, hang bool) {
		st := p.stat(id)
		var ts []*Term
		for _, x := range pairs {
			ts = append(ts, at(x))
		}
		r, mo := p.query(bd.And(base, p.disj(ts)))
		switch r {
		case Unsat:
			st.Proved++
		case Sat:
			st.Violated++
			bd.ResetEval()
			i, j := int(bd.Eval(P[0], mo)), int(bd.Eval(P[1], mo))
			p.violation(id, "", p.model, fmt.Sprintf("%s %s / %s %s", string(evs[0][i].kind), evs[0][i].site, string(evs[1][j].kind), evs[1][j].site))
			v := p.viol[len(p.viol)-1]
			v.Race, v.Hang = true, hang
		default:
			st.Unknown++
			p.incomplete("solver unknown on the schedules")
		}
	}
	// races
	byLoc := map[any][]*mev{}
	for _, e := range evs[1] {
		if e.kind == 'r' || e.kind == 'w' {
			byLoc[e.loc] = append(byLoc[e.loc], e)
		}
	}
	var pairs []pair
	for _, a := range evs[0] {
		if a.kind != 'r' && a.kind != 'w' {
			continue
		}
		for _, b := range byLoc[a.loc] {
			if a.kind == 'w' || b.kind == 'w' {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	decide("two concurrent operations do not race for memory", pairs, false)
	// deadlocks: each waits for a lock which the other holds. A waiting
	// writer keeps new readers out.
	held := func(t, pos int) map[any]int {
		h := map[any]int{}
		for l, rs := range regs[t] {
			for _, r := range rs {
				if r.acq.pos < pos && (r.rel == nil || r.rel.pos > pos) && h[l] < r.mode {
					h[l] = r.mode
				}
			}
		}
		return h
	}
	pairs = nil
	for _, a := range evs[0] {
		if a.kind != '+' {
			continue
		}
		ha := held(0, a.pos)
		if len(ha) == 0 {
			continue
		}
		for _, b := range evs[1] {
			if b.kind != '+' {
				continue
			}
			hb := held(1, b.pos)
			blockA := hb[a.loc]+a.mode > 2 && hb[a.loc] > 0
			blockB := ha[b.loc]+b.mode > 2 && ha[b.loc] > 0
			if a.loc == b.loc && a.mode == 1 && b.mode == 2 && ha[a.loc] == 1 {
				blockA = true
			}
			if blockA && blockB {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	// a reader of the second thread behind a writer of the first
	for _, b := range evs[1] {
		if b.kind != '+' || b.mode != 1 || held(1, b.pos)[b.loc] != 1 {
			continue
		}
		for _, a := range evs[0] {
			if a.kind == '+' && a.mode == 2 && a.loc == b.loc {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	decide("two concurrent operations do not wait for each other", pairs, true)
}

// conj and disj are balanced, to keep terms shallow.
func (p *Path) conj(ts []*Term) *Term {
	if len(ts) == 0 {
		return p.bd.T
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return p.bd.And(p.conj(ts[:len(ts)/2]), p.conj(ts[len(ts)/2:]))
}

func (p *Path) disj(ts []*Term) *Term {
	if len(ts) == 0 {
		return p.bd.F
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return p.bd.Or(p.disj(ts[:len(ts)/2]), p.disj(ts[len(ts)/2:]))
}
