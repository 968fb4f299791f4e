package h

import (
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// A matcher for the regular expressions of policies: anchors, characters,
// classes, lookaheads and repetitions. Texts and repetition limits may be
// symbolic; matching yields a condition.

type reNode struct {
	kind byte // c(lass), a(ny), l(ookahead), ^, $
	neg  bool
	set  []byte // pairs of limits
	sub  []reNode
	min  int
	max  int // -1: none
}

type reParser struct {
	s  string
	i  int
	ok bool
}

func digit(c byte) bool { return v.In(c, "digit") }

func (p *reParser) number() int {
	n := 0
	if p.i >= len(p.s) || !digit(p.s[p.i]) {
		p.ok = false
	}
	for p.i < len(p.s) && digit(p.s[p.i]) {
		n = n*10 + int(p.s[p.i]-'0')
		p.i++
	}
	return n
}

func (p *reParser) at(t string) bool {
	if p.i+len(t) <= len(p.s) && p.s[p.i:p.i+len(t)] == t {
		p.i += len(t)
		return true
	}
	return false
}

func (p *reParser) parse() []reNode {
	var l []reNode
	for p.ok && p.i < len(p.s) && p.s[p.i] != ')' {
		n := reNode{min: 1, max: 1}
		switch {
		case p.at("(?="):
			n.kind = 'l'
			n.sub = p.parse()
			if !p.at(")") {
				p.ok = false
			}
		case p.at("^"):
			n.kind = '^'
		case p.at("$"):
			n.kind = '$'
		case p.at("."):
			n.kind = 'a'
		case p.at("["):
			n.kind = 'c'
			n.neg = p.at("^")
			for p.i < len(p.s) && p.s[p.i] != ']' {
				p.at("\\")
				c := p.s[p.i]
				p.i++
				d := c
				if p.i+1 < len(p.s) && p.s[p.i] == '-' && p.s[p.i+1] != ']' && c != '_' {
					d = p.s[p.i+1]
					p.i += 2
				}
				n.set = append(n.set, c, d)
			}
			if !p.at("]") {
				p.ok = false
			}
		default:
			p.at("\\")
			n.kind = 'c'
			n.set = []byte{p.s[p.i], p.s[p.i]}
			p.i++
		}
		switch {
		case p.at("*"):
			n.min, n.max = 0, -1
		case p.at("+"):
			n.max = -1
		case p.at("?"):
			n.min = 0
		case p.at("{"):
			n.min = p.number()
			n.max = n.min
			if p.at(",") {
				n.max = -1
				if p.i < len(p.s) && p.s[p.i] != '}' {
					n.max = p.number()
				}
			}
			if !p.at("}") {
				p.ok = false
			}
		}
		l = append(l, n)
	}
	return l
}

func (n reNode) char(c byte) bool {
	if n.kind == 'a' {
		return c != '\n'
	}
	r := false
	for i := 0; i < len(n.set); i += 2 {
		r = v.Or(r, v.And(n.set[i] <= c, c <= n.set[i+1]))
	}
	return v.Iff(r, v.Not(n.neg))
}

// run gives, per position, whether the nodes can end there.
func run(l []reNode, s string, from []bool) []bool {
	cur := from
	for _, n := range l {
		next := make([]bool, len(s)+1)
		switch n.kind {
		case '^':
			next[0] = cur[0]
		case '$':
			next[len(s)] = cur[len(s)]
		case 'l':
			for i := range cur {
				one := make([]bool, len(s)+1)
				one[i] = true
				some := false
				for _, c := range run(n.sub, s, one) {
					some = v.Or(some, c)
				}
				next[i] = v.And(cur[i], some)
			}
		default:
			reach := cur
			for k := 0; ; k++ {
				in := v.And(n.min <= k, v.Or(n.max < 0, k <= n.max))
				for i := range next {
					next[i] = v.Or(next[i], v.And(in, reach[i]))
				}
				if k == len(s) {
					break
				}
				step := make([]bool, len(s)+1)
				for i := 0; i < len(s); i++ {
					step[i+1] = v.And(reach[i], n.char(s[i]))
				}
				reach = step
			}
		}
		cur = next
	}
	return cur
}

// matches tells whether the expression finds something in s.
func matches(re, s string) bool {
	p := &reParser{s: re, ok: true}
	l := p.parse()
	v.Assert(p.ok && p.i == len(re), "the advertised expression is a regular expression")
	if !p.ok || p.i != len(re) {
		return false
	}
	from := make([]bool, len(s)+1)
	for i := range from {
		from[i] = true
	}
	some := false
	for _, c := range run(l, s, from) {
		some = v.Or(some, c)
	}
	return some
}

// limits are the policy limits: around the texts' lengths, or larger.
func limits(top int) (int, int) {
	lo, hi := v.Int("min", 1, top), v.Int("max", 1, top)
	return lo, hi
}

func policyDB(pol identity.Policy) *identity.Database {
	p := v.TempPath("db.json")
	if pol.User.MinLength == 0 {
		pol.User.MinLength, pol.User.MaxLength = 3, 50
	}
	if pol.Password.MinLength == 0 {
		pol.Password.MinLength, pol.Password.MaxLength = 8, 128
	}
	if pol.Password.KeepVersions == 0 {
		pol.Password.KeepVersions = 10
	}
	v.WriteJSON(p, &identity.Database{Policy: pol, Revision: 7, LastModified: t0, Users: []*identity.User{mkUser(0, "bob1", v.Hash(oldPw), "bob1@x.io")}})
	db, err := identity.NewDatabase(p)
	v.Assume(err == nil)
	return db
}

func userPolicy(lo, hi int) identity.Policy {
	return identity.Policy{User: identity.UserPolicy{MinLength: lo, MaxLength: hi, AllowUppercase: v.Bool("upper"), AllowNonAlphaNumeric: v.Bool("symbols")}}
}

func passPolicy(lo, hi int) identity.Policy {
	return identity.Policy{Password: identity.PasswordPolicy{MinLength: lo, MaxLength: hi, RequireUppercase: v.Bool("upper"), RequireLowercase: v.Bool("lower"), RequireNumber: v.Bool("number"), RequireNonAlphaNumeric: v.Bool("symbols"),
		BlockReuse: v.Bool("reuse"), BlockPasswordChange: v.Bool("change")}}
}

// plain texts hold only characters which every username policy admits.
func C31_username() {
	v.Bound("minimum and maximum length 1-12 or 1-999; both switches; every username of 0-4 (thorough: 0-6), 9-11 ASCII bytes other than newline")
	lens := []int{0, 1, 2, 3, 4, 10}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 9, 10, 11}
	}
	top := 12
	if v.Choose("top", 2) == 1 {
		top = 999
	}
	lo, hi := limits(top)
	pol := userPolicy(lo, hi)
	db := policyDB(pol)
	re := db.GetUsernamePolicyRegex()
	s := v.Str("name", "ascii", lens...)
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] != '\n')
	}
	m := matches(re, s)
	fits := v.And(len(s) >= lo, len(s) <= hi)
	v.Assert(v.Implies(m, fits), "the expression admits no length which the database refuses")
	up, sym, odd := false, false, false
	for i := 0; i < len(s); i++ {
		u, l, d := v.In(s[i], "upper"), v.In(s[i], "lower"), v.In(s[i], "digit")
		up = v.Or(up, u)
		sym = v.Or(sym, v.Not(v.Or(u, l, d)))
		if i == 0 {
			odd = v.Not(v.Or(u, l))
		} else {
			odd = v.Or(odd, v.Not(v.Or(u, l, d, v.In(s[i], "set:-_."))))
		}
	}
	v.Assert(v.Implies(v.And(m, up), pol.User.AllowUppercase), "the expression admits capitals only when the policy does")
	v.Assert(v.Implies(v.And(m, sym), pol.User.AllowNonAlphaNumeric), "the expression admits other characters only when the policy does")
	v.Assert(v.Implies(v.And(fits, v.Not(odd), v.Or(v.Not(up), pol.User.AllowUppercase), v.Or(v.Not(sym), pol.User.AllowNonAlphaNumeric)), m), "the expression admits what the policy does")
}

// C31_password: the password expression.
func C31_password() {
	v.Bound("minimum and maximum length 1-12 or 1-999; 16 combinations of requirements and four of other switches; every password of 0-4 (thorough: 0-6), 10 ASCII bytes other than newline")
	lens := []int{0, 1, 2, 4, 10}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 8, 10}
	}
	top := 12
	if v.Choose("top", 2) == 1 {
		top = 999
	}
	lo, hi := limits(top)
	pol := passPolicy(lo, hi)
	db := policyDB(pol)
	re := db.GetPasswordPolicyRegex()
	s := v.Str("password", "ascii", lens...)
	var n [4]int
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] != '\n')
	}
	m := matches(re, s)
	fits := v.And(len(s) >= lo, len(s) <= hi)
	v.Assert(v.Implies(m, fits), "the expression admits no length which the database refuses")
	for i := 0; i < len(s); i++ {
		for k, c := range []string{"upper", "lower", "digit"} {
			n[k] += one(v.In(s[i], c))
		}
		n[3] += one(v.Not(v.In(s[i], "alnum")))
	}
	marks := 0
	for i := 0; i < len(s); i++ {
		marks += one(v.In(s[i], "set:~!@#$&*"))
	}
	p := pol.Password
	v.Assert(v.Implies(v.And(m, p.RequireUppercase), n[0] > 0), "the expression requires a capital when the policy does")
	v.Assert(v.Implies(v.And(m, p.RequireLowercase), n[1] > 0), "the expression requires a small letter when the policy does")
	v.Assert(v.Implies(v.And(m, p.RequireNumber), n[2] > 0), "the expression requires a digit when the policy does")
	v.Assert(v.Implies(v.And(m, p.RequireNonAlphaNumeric), n[3] > 0), "the expression requires another character when the policy does")
	enough := v.And(v.Implies(p.RequireUppercase, n[0] > 1), v.Implies(p.RequireLowercase, n[1] > 1), v.Implies(p.RequireNumber, n[2] > 1), v.Implies(p.RequireNonAlphaNumeric, marks > 1))
	v.Assert(v.Implies(v.And(fits, enough), m), "the expression requires nothing else")
}

// one is 1 for true, without branching.
func one(c bool) int { return v.Ite(c, 1, 0) }

// span reads the limits which a summary states.
func span(s string) (int, int, bool) {
	i := 0
	for i < len(s) && !digit(s[i]) {
		i++
	}
	p := &reParser{s: s, i: i, ok: true}
	a := p.number()
	if !p.at("-") {
		return 0, 0, false
	}
	b := p.number()
	return a, b, p.ok
}

// C31_summary: the summaries.
func C31_summary() {
	v.Bound("all limits of 1-9999; all 64 combinations of switches")
	lo, hi := limits(9999)
	if v.Choose("what", 2) == 0 {
		pol := userPolicy(lo, hi)
		s := policyDB(pol).GetUsernamePolicySummary()
		a, b, ok := span(s)
		v.Assert(v.And(ok, a == lo, b == hi), "the username summary states the limits")
		v.Assert(v.Iff(strings.Contains(s, "lowercase"), v.Not(pol.User.AllowUppercase)), "the username summary states the letters")
		v.Assert(v.Iff(strings.Contains(s, "alpha-numeric"), v.Not(pol.User.AllowNonAlphaNumeric)), "the username summary states the characters")
		return
	}
	pol := passPolicy(lo, hi)
	s := policyDB(pol).GetPasswordPolicySummary()
	a, b, ok := span(s)
	v.Assert(v.And(ok, a == lo, b == hi), "the password summary states the limits")
	p := pol.Password
	v.Assert(v.And(v.Iff(strings.Contains(s, "uppercase"), p.RequireUppercase), v.Iff(strings.Contains(s, "lowercase"), p.RequireLowercase),
		v.Iff(strings.Contains(s, "number"), p.RequireNumber), v.Iff(strings.Contains(s, "alpha-numeric"), p.RequireNonAlphaNumeric)), "the password summary states the requirements")
}
