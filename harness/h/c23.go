package h

import (
	"encoding/base32"
	"encoding/base64"

	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/qr"
)

// unhex is the value of a hexadecimal digit, or -1.
func unhex(c byte) int {
	switch {
	case v.In(c, "digit"):
		return int(c - '0')
	case v.In(c, "set:ABCDEF"):
		return int(c-'A') + 10
	case v.In(c, "set:abcdef"):
		return int(c-'a') + 10
	}
	return -1
}

// unescape undoes percent-encoding; in queries a plus sign is a space.
func unescape(s string, query bool) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := unhex(s[i+1]), unhex(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b = append(b, byte(h*16+l))
			i += 2
		case query && s[i] == '+':
			b = append(b, ' ')
		case v.In(s[i], "alnum"), v.In(s[i], "set:-_.~!$'()*,;:@+"):
			b = append(b, s[i])
		default:
			return "", false
		}
	}
	return string(b), true
}

type uri struct {
	kind, label string
	keys, vals  []string
}

// parseURI reads an otpauth URI the way the standards say.
func parseURI(s string) (u uri, ok bool) {
	const p = "otpauth://"
	if len(s) < len(p) || s[:len(p)] != p {
		return
	}
	s = s[len(p):]
	i := index(s, '/')
	if i < 0 {
		return
	}
	u.kind, s = s[:i], s[i+1:]
	if i = index(s, '?'); i < 0 {
		return
	}
	if u.label, ok = unescape(s[:i], false); !ok {
		return
	}
	s = s[i+1:]
	for {
		i, t := index(s, '&'), s
		if i >= 0 {
			t = s[:i]
		}
		j := index(t, '=')
		if j < 0 {
			return u, false
		}
		k, ok1 := unescape(t[:j], true)
		x, ok2 := unescape(t[j+1:], true)
		if !ok1 || !ok2 {
			return u, false
		}
		u.keys, u.vals = append(u.keys, k), append(u.vals, x)
		if i < 0 {
			return u, true
		}
		s = s[i+1:]
	}
}

// get is the value of a parameter which occurs once.
func (u uri) get(k string) (string, bool) {
	n, x := 0, ""
	for i := range u.keys {
		if u.keys[i] == k {
			n++
			x = u.vals[i]
		}
	}
	return x, n == 1
}

func number(s string) int {
	if s == "" || len(s) > 12 {
		return -1
	}
	p := &reParser{s: s, ok: true}
	n := p.number()
	if !p.ok || p.i != len(s) {
		return -1
	}
	return n
}

// built checks the URI of a code built from the given values.
func built(c *qr.Code, kind, label, issuer, secret, algo string, digits, period, counter int) {
	t := c.Get()
	u, ok := parseURI(t)
	v.Assert(ok, "the code is an otpauth URI")
	if !ok {
		return
	}
	v.Assert(u.kind == kind, "the URI has the type")
	// the existing tests ask for plus signs
	space := index(label, ' ') >= 0
	v.Known("URI has the label", "label-space", space, u.label == label)
	n := 1
	s, ok := u.get("secret")
	b, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s)
	v.Assert(ok && err == nil && string(b) == secret, "the URI has the secret")
	i, ok := u.get("issuer")
	v.Assert(v.And(v.Iff(ok, issuer != ""), i == issuer), "the URI has the issuer")
	if issuer != "" {
		n++
	}
	a, ok := u.get("algorithm")
	v.Assert(v.And(v.Iff(ok, algo != ""), fold(a, algo)), "the URI has the algorithm")
	if algo != "" {
		n++
	}
	if digits == 0 {
		digits = 6
	}
	d, ok := u.get("digits")
	v.Assert(v.And(ok, number(d) == digits), "the URI has the digits")
	if period == 0 {
		period = 30
	}
	d, ok = u.get("period")
	v.Assert(v.And(ok, number(d) == period), "the URI has the period")
	n += 2
	d, ok = u.get("counter")
	if counter > 0 {
		n++
		v.Assert(v.And(ok, number(d) == counter), "the URI has the counter")
	} else {
		v.Assert(!ok, "the URI has no counter")
	}
	v.Assert(len(u.keys) == n, "the URI has no other parameters")
	e, err := base64.StdEncoding.DecodeString(c.GetEncoded())
	v.Assert(err == nil && string(e) == t, "the encoded form is that of the URI")
}

func mkCode(kind, label, issuer, secret, algo string, digits, period, counter int) *qr.Code {
	c := qr.NewCode()
	c.Type, c.Label, c.Issuer, c.Secret, c.Algorithm = kind, label, issuer, secret, algo
	c.Digits, c.Period, c.Counter = digits, period, counter
	return c
}

// C23_texts: any labels and issuers.
func C23_texts() {
	v.Bound("any label and issuer of 0-2 (thorough: 0-3) bytes each, labels of 0-3 (thorough: 0-4) bytes with the issuer fixed; totp and hotp")
	n := 2
	if v.Thorough() {
		n = 3
	}
	lens := []int{0, 1, 2, 3}[:n+1]
	label, issuer := "", "issuer & co"
	if v.Choose("what", 2) == 0 {
		label = v.Str("label", "any", n+1)
	} else {
		label = v.Str("label", "any", lens...)
		issuer = v.Str("issuer", "any", lens...)
	}
	c := mkCode("totp", label, issuer, "s3cret", "SHA1", 0, 0, 0)
	if v.Choose("type", 2) == 1 {
		c.Type, c.Counter = "hotp", 7
	}
	kind, counter := c.Type, c.Counter
	err := c.Build()
	v.Assert(v.Iff(err == nil, label != ""), "a code is built exactly when it has a label")
	if err == nil {
		built(c, kind, label, issuer, "s3cret", "sha1", 0, 0, counter)
	} else {
		v.Assert(v.And(c.Get() == "", c.GetEncoded() == ""), "a refused code has no URI")
	}
}

// C23_secret: any secrets.
func C23_secret() {
	v.Bound("any secret of 0, 1 or 4-12 (thorough: 0-21) bytes")
	lens := []int{0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	if v.Thorough() {
		lens = append(lens, 2, 3, 13, 14, 15, 16, 17, 18, 19, 20, 21)
	}
	s := v.Str("secret", "any", lens...)
	c := mkCode("totp", "label", "", s, "", 6, 30, 0)
	err := c.Build()
	v.Assert(v.Iff(err == nil, len(s) >= 6), "a code is built exactly when the secret is long enough")
	if err == nil {
		built(c, "totp", "label", "", s, "", 6, 30, 0)
	}
}

// C23_numbers: any digits, periods and counters.
func C23_numbers() {
	v.Bound("all 32-bit digits, periods and counters, one or two of them free at a time; totp and hotp")
	d, p, n := 6, 30, 1
	switch v.Choose("free", 3) {
	case 0:
		d, p = v.Int("digits", -1<<31, 1<<31-1), v.Int("period", -1<<31, 1<<31-1)
	case 1:
		n = v.Int("counter", -1<<31, 1<<31-1)
	case 2:
		p, n = v.Int("period", -1<<31, 1<<31-1), v.Int("counter", -1<<31, 9)
	}
	kind := v.Pick("type", "totp", "hotp")
	c := mkCode(kind, "label", "issuer", "s3cret", "sha256", d, p, n)
	err := c.Build()
	ok := v.And(v.Or(d == 0, v.And(d >= 4, d <= 8)), v.Or(p == 0, v.And(p >= 30, p <= 180)), v.Or(kind == "totp", n >= 1))
	v.Assert(v.Iff(err == nil, ok), "a code is built exactly when its numbers are valid")
	if err == nil {
		built(c, kind, "label", "issuer", "s3cret", "sha256", d, p, n)
	}
}

// C23_kind: any types and algorithms.
func C23_kind() {
	v.Bound("any type or algorithm of 0-6 ASCII bytes")
	kind, algo := "totp", "sha512"
	if v.Choose("what", 2) == 0 {
		kind = v.Str("type", "ascii", 0, 3, 4, 5)
	} else {
		algo = v.Str("algorithm", "ascii", 0, 1, 3, 4, 5, 6)
	}
	c := mkCode(kind, "label", "issuer", "s3cret", algo, 8, 180, 3)
	err := c.Build()
	ok := v.And(v.Or(kind == "totp", kind == "hotp"), v.Or(algo == "", fold(algo, "sha1"), fold(algo, "sha256"), fold(algo, "sha512")))
	v.Assert(v.Iff(err == nil, ok), "a code is built exactly when its type and algorithm are valid")
	if err == nil {
		built(c, kind, "label", "issuer", "s3cret", algo, 8, 180, 3)
	}
}

// C23_again: codes which are changed and built again.
func C23_again() {
	v.Bound("a code built, changed in label, issuer, secret or counter, and built again")
	c := mkCode("totp", "one", "issuer", "s3cret", "sha1", 6, 30, 5)
	v.Assume(c.Build() == nil)
	label, issuer, secret, counter := "one", "issuer", "s3cret", 5
	switch v.Choose("change", 4) {
	case 0:
		label = v.Str("label", "alnum", 1, 4)
	case 1:
		issuer = v.Str("issuer", "alnum", 0, 1)
	case 2:
		secret = v.Str("secret", "print", 6)
	case 3:
		counter = v.Int("counter", 0, 9)
	}
	c.Label, c.Issuer, c.Secret, c.Counter = label, issuer, secret, counter
	v.Assert(c.Build() == nil, "a code can be built again")
	built(c, "totp", label, issuer, secret, "sha1", 6, 30, counter)
}
