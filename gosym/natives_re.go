package main

import (
	"reflect"
	"regexp"
	"regexp/syntax"
)

// reFind is the leftmost-first match of re in b as capture positions, or nil.
// It backtracks as package regexp does, and forks the path on the bytes.
func (p *Path) reFind(re *regexp.Regexp, b []*Term) []int {
	if c, ok := termsConcrete(b); ok {
		return re.FindSubmatchIndex(c)
	}
	if !p.branch(p.reMatch(re, b)) {
		return nil
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		p.unsupported("regexp: " + err.Error())
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		p.unsupported("regexp: " + err.Error())
	}
	n, ncap := len(b), 2*(re.NumSubexp()+1)
	isWord := func(i int) bool {
		return i >= 0 && i < n && p.branch(p.inSet(b[i], func(c byte) bool { return syntax.IsWordChar(rune(c)) }))
	}
	nl := func(i int) bool { return p.branch(p.bd.Eq(b[i], p.cint(8, '\n'))) }
	type key struct {
		pc  uint32
		pos int
	}
	seen := map[key]bool{}
	caps := make([]int, ncap)
	var try func(pc uint32, pos int) bool
	try = func(pc uint32, pos int) bool {
		if seen[key{pc, pos}] {
			return false
		}
		seen[key{pc, pos}] = true
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return try(in.Out, pos) || try(in.Arg, pos)
		case syntax.InstNop:
			return try(in.Out, pos)
		case syntax.InstCapture:
			if int(in.Arg) >= ncap {
				return try(in.Out, pos)
			}
			old := caps[in.Arg]
			caps[in.Arg] = pos
			if try(in.Out, pos) {
				return true
			}
			caps[in.Arg] = old
			return false
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in.Arg)
			if f&syntax.EmptyBeginText != 0 && pos != 0 || f&syntax.EmptyEndText != 0 && pos != n {
				return false
			}
			if f&syntax.EmptyBeginLine != 0 && pos > 0 && !nl(pos-1) || f&syntax.EmptyEndLine != 0 && pos < n && !nl(pos) {
				return false
			}
			if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				d := isWord(pos-1) != isWord(pos)
				if f&syntax.EmptyWordBoundary != 0 && !d || f&syntax.EmptyNoWordBoundary != 0 && d {
					return false
				}
			}
			return try(in.Out, pos)
		case syntax.InstMatch:
			caps[1] = pos
			return true
		case syntax.InstFail:
			return false
		}
		if pos == n {
			return false
		}
		return p.branch(p.inSet(b[pos], func(ch byte) bool {
			if ch >= 0x80 {
				return false
			}
			switch in.Op {
			case syntax.InstRuneAny:
				return true
			case syntax.InstRuneAnyNotNL:
				return ch != '\n'
			}
			return in.MatchRune(rune(ch))
		})) && try(in.Out, pos+1)
	}
	for pos := 0; pos <= n; pos++ {
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = pos
		if try(uint32(prog.Start), pos) {
			return caps
		}
	}
	p.unsupported("regexp: no captures of a match")
	return nil
}

func init() {
	re := func(p *Path, v Value) *regexp.Regexp { return p.native(v, "regexp").(*regexp.Regexp) }
	ints := func(p *Path, c []int) Value { return p.fromGo(reflect.ValueOf(c)) }
	strs := func(p *Path, b []*Term, c []int) Value {
		if c == nil {
			return ints(p, nil)
		}
		var parts []Value
		for i := 0; i < len(c); i += 2 {
			if c[i] < 0 {
				parts = append(parts, mkstr(""))
			} else {
				parts = append(parts, strOf(b[c[i]:c[i+1]]))
			}
		}
		return SliceV{parts}
	}
	regv("(*regexp.Regexp).FindString", func(p *Path, a []Value) Value {
		b := p.strB(a[1])
		if c := p.reFind(re(p, a[0]), b); c != nil {
			return strOf(b[c[0]:c[1]])
		}
		return mkstr("")
	})
	regv("(*regexp.Regexp).FindStringIndex", func(p *Path, a []Value) Value {
		c := p.reFind(re(p, a[0]), p.strB(a[1]))
		if c != nil {
			c = c[:2]
		}
		return ints(p, c)
	})
	regv("(*regexp.Regexp).FindIndex", func(p *Path, a []Value) Value {
		c := p.reFind(re(p, a[0]), p.strB(a[1]))
		if c != nil {
			c = c[:2]
		}
		return ints(p, c)
	})
	regv("(*regexp.Regexp).FindStringSubmatchIndex", func(p *Path, a []Value) Value {
		return ints(p, p.reFind(re(p, a[0]), p.strB(a[1])))
	})
	regv("(*regexp.Regexp).FindStringSubmatch", func(p *Path, a []Value) Value {
		b := p.strB(a[1])
		return strs(p, b, p.reFind(re(p, a[0]), b))
	})
}
