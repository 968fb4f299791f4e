package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the code under test run as coroutines: exactly one runs at a
// time, and control moves at the points where the code can block (channels,
// locks, WaitGroups), at the go statement and at unlocks, by a choice that
// the exploration enumerates.

type gor struct {
	wake    chan struct{}
	frames  []*frame
	ready   func() bool // nil: runnable
	started bool
	done    bool
	fn      Value
	args    []Value
}

type gorKilled struct{}

type gorSched struct {
	all    []*gor
	cur    *gor
	failed any
	killed chan struct{}
	wg     sync.WaitGroup
	yields int
}

type chanObj struct {
	buf     []Value
	cap     int
	closed  bool
	waiting int // receivers waiting
	taken   int // values received so far
	sent    int
	elem    types.Type
}

func (p *Path) sched() *gorSched {
	if p.w.gs == nil {
		m := &gor{wake: make(chan struct{}), started: true}
		p.w.gs = &gorSched{all: []*gor{m}, cur: m, killed: make(chan struct{})}
	}
	return p.w.gs
}

func (p *Path) spawn(fn Value, args []Value) {
	if p.w.mon != nil {
		p.unsupported("go statement in a concurrent operation")
	}
	if len(p.frames) == 0 {
		p.unsupported("go statement in an initialiser")
	}
	s := p.sched()
	if len(s.all) > 6 {
		p.unsupported("more than 6 goroutines")
	}
	g := &gor{wake: make(chan struct{}), fn: fn, args: args}
	s.all = append(s.all, g)
	if p.choose(2) == 1 {
		p.switchTo(g)
	}
}

func (p *Path) runnable(not *gor) []*gor {
	var r []*gor
	for _, g := range p.w.gs.all {
		if g != not && !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

func (p *Path) resume(g *gor) {
	s := p.w.gs
	s.cur = g
	if g.started {
		p.frames = g.frames
		g.wake <- struct{}{}
		return
	}
	g.started = true
	p.frames = append([]*frame(nil), s.all[0].frames[:1]...)
	s.wg.Add(1)
	go p.runGor(g)
}

func (p *Path) switchTo(g *gor) {
	s := p.w.gs
	me := s.cur
	me.frames = p.frames
	p.resume(g)
	select {
	case <-me.wake:
	case <-s.killed:
		panic(gorKilled{})
	}
	if s.failed != nil && me == s.all[0] {
		x := s.failed
		s.failed = nil
		panic(x)
	}
	p.frames = me.frames
}

func (p *Path) runGor(g *gor) {
	s := p.w.gs
	defer s.wg.Done()
	fail := func(x any) {
		s.failed = x
		m := s.all[0]
		s.cur = m
		p.frames = m.frames
		m.wake <- struct{}{}
	}
	defer func() {
		switch r := recover(); x := r.(type) {
		case nil, gorKilled:
		case targetPanic:
			fail(pathEnd{"panic", "goroutine: " + x.msg + " @ " + x.trace})
		default:
			fail(r)
		}
	}()
	p.call(g.fn, g.args)
	g.done = true
	r := p.runnable(g)
	if len(r) == 0 {
		p.deadlock("all goroutines are asleep")
	}
	i := 0
	if len(r) > 1 {
		i = p.choose(len(r))
	}
	p.resume(r[i])
}

// block waits until ready.
func (p *Path) block(what string, ready func() bool) {
	for !ready() {
		if p.w.gs == nil {
			p.deadlock(what)
		}
		me := p.w.gs.cur
		r := p.runnable(me)
		if len(r) == 0 {
			p.deadlock(what)
		}
		i := 0
		if len(r) > 1 {
			i = p.choose(len(r))
		}
		me.ready = ready
		p.switchTo(r[i])
		me.ready = nil
	}
}

// yield lets another goroutine run, at most a few times per path.
func (p *Path) yield() {
	s := p.w.gs
	if s == nil || s.yields >= 3 {
		return
	}
	r := p.runnable(s.cur)
	if len(r) == 0 {
		return
	}
	if i := p.choose(len(r) + 1); i > 0 {
		s.yields++
		p.switchTo(r[i-1])
	}
}

// yieldAt yields where a lock is acquired, or released: either is enough, but
// operations may act on files without a lock as well.
func (p *Path) yieldAt(acquire bool) {
	if p.w.both != acquire {
		p.yield()
	}
}

// endGors ends the goroutines left over at the end of the path.
func (p *Path) endGors() {
	if p.w.gs != nil {
		close(p.w.gs.killed)
		p.w.gs.wg.Wait()
	}
}

func (p *Path) chanOf(v Value) *chanObj {
	o, _ := v.(*NativeObj)
	if o == nil {
		return nil
	}
	return o.x.(*chanObj)
}

func (p *Path) chanSendReady(c *chanObj) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || c.cap == 0 && c.waiting > len(c.buf))
}

func (p *Path) chanSend(v Value, x Value) {
	c := p.chanOf(v)
	if c == nil {
		p.block("send on a nil channel", func() bool { return false })
	}
	if c.cap > 0 {
		p.block("channel send", func() bool { return p.chanSendReady(c) })
	}
	if c.closed {
		p.gopanicStr("send on closed channel")
	}
	c.buf = append(c.buf, copyVal(x))
	c.sent++
	if c.cap == 0 {
		n := c.sent
		p.block("channel send", func() bool { return c.taken >= n || c.closed })
	}
	p.yield()
}

func (p *Path) chanRecvReady(c *chanObj) bool { return c != nil && (len(c.buf) > 0 || c.closed) }

func (p *Path) chanRecv(v Value) (Value, bool) {
	c := p.chanOf(v)
	if c == nil {
		p.block("receive from a nil channel", func() bool { return false })
	}
	c.waiting++
	p.block("channel receive", func() bool { return p.chanRecvReady(c) })
	c.waiting--
	return p.chanTake(c)
}

func (p *Path) chanTake(c *chanObj) (Value, bool) {
	if len(c.buf) == 0 {
		return p.zero(c.elem), false
	}
	x := c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	return x, true
}

func (p *Path) selectStmt(fr *frame, x *ssa.Select) Value {
	type cs struct {
		c    *chanObj
		send Value
	}
	var cases []cs
	for _, st := range x.States {
		k := cs{c: p.chanOf(p.get(fr, st.Chan))}
		if st.Dir == types.SendOnly {
			k.send = p.get(fr, st.Send)
		} else if k.c != nil {
			k.c.waiting++
		}
		cases = append(cases, k)
	}
	ready := func() []int {
		var r []int
		for i, st := range x.States {
			if st.Dir == types.SendOnly && p.chanSendReady(cases[i].c) || st.Dir == types.RecvOnly && p.chanRecvReady(cases[i].c) {
				r = append(r, i)
			}
		}
		return r
	}
	if x.Blocking {
		p.block("select", func() bool { return len(ready()) > 0 })
	} else if p.w.gs != nil {
		p.yield()
	}
	for i, st := range x.States {
		if st.Dir == types.RecvOnly && cases[i].c != nil {
			cases[i].c.waiting--
		}
	}
	r := ready()
	idx := -1
	if len(r) == 1 {
		idx = r[0]
	} else if len(r) > 1 {
		idx = r[p.choose(len(r))]
	}
	t := Tuple{p.intv(idx), p.bd.F}
	for i, st := range x.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		v := p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
		if i == idx {
			y, ok := p.chanTake(cases[i].c)
			v, t[1] = y, p.boolv(ok)
		}
		t = append(t, v)
	}
	if idx >= 0 && x.States[idx].Dir == types.SendOnly {
		c := cases[idx].c
		if c.closed {
			p.gopanicStr("send on closed channel")
		}
		c.buf = append(c.buf, copyVal(cases[idx].send))
		c.sent++
	}
	return t
}

func (p *Path) chanUnop(x *ssa.UnOp, v Value) Value {
	if x.Op != token.ARROW {
		return nil
	}
	r, ok := p.chanRecv(v)
	if x.CommaOk {
		return Tuple{r, p.boolv(ok)}
	}
	return r
}

func (p *Path) newChan(elem types.Type, n int) *NativeObj {
	return &NativeObj{kind: "chan", x: &chanObj{cap: n, elem: elem}}
}

func regGor() {
	regv("(*sync.WaitGroup).Add", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		p.w.wgs[c] += p.intOf(a[1])
		if p.w.wgs[c] < 0 {
			p.gopanicStr("sync: negative WaitGroup counter")
		}
		return nil
	})
	regv("(*sync.WaitGroup).Done", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		p.w.wgs[c]--
		if p.w.wgs[c] < 0 {
			p.gopanicStr("sync: negative WaitGroup counter")
		}
		p.yield()
		return nil
	})
	regv("(*sync.WaitGroup).Wait", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		p.block("WaitGroup.Wait", func() bool { return p.w.wgs[c] == 0 })
		return nil
	})
	regv("(*sync.WaitGroup).Go", func(p *Path, a []Value) Value {
		c := p.ptr(a[0])
		p.w.wgs[c]++
		f := a[1]
		p.spawn(&BoundNative{"WaitGroup.Go", func(p *Path, _ []Value) Value {
			p.call(f, nil)
			p.w.wgs[c]--
			return nil
		}}, nil)
		return nil
	})
	regv("time.After", func(p *Path, a []Value) Value {
		ch := p.newChan(p.e.namedType("time", "Time"), 1)
		sec, ns := p.now()
		ch.x.(*chanObj).buf = []Value{p.mkTime(sec, ns, false)}
		return ch
	})
}
