package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

const localSet = "set:abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.!#$%&'*+/=?^_`{|}~-"

// wellFormed is the documented grammar of an address whose '@' is at k.
func wellFormed(s string, k int) bool {
	if k < 1 || k+1 >= len(s) {
		return false
	}
	ok := s[k] == '@'
	for i := 0; i < k; i++ {
		ok = v.And(ok, v.In(s[i], localSet))
	}
	d := s[k+1:]
	for i := 0; i < len(d); i++ {
		alnum := v.In(d[i], "alnum")
		ok = v.And(ok, v.Or(alnum, d[i] == '-', d[i] == '.'))
		if i == 0 || i == len(d)-1 {
			ok = v.And(ok, alnum)
			continue
		}
		// a dot has alphanumerics on both sides, so a label neither starts
		// nor ends with a hyphen and is not empty
		ok = v.And(ok, v.Implies(d[i] == '.', v.And(v.In(d[i-1], "alnum"), v.In(d[i+1], "alnum"))))
	}
	for i := 0; i+64 <= len(d); i++ {
		dot := false
		for j := i; j < i+64; j++ {
			dot = v.Or(dot, d[j] == '.')
		}
		ok = v.And(ok, dot)
	}
	return ok
}

func anyWellFormed(s string) bool {
	ok := false
	for k := 1; k+1 < len(s); k++ {
		ok = v.Or(ok, wellFormed(s, k))
	}
	return ok
}

// C21_grammar: short addresses, every byte arbitrary.
func C21_grammar() {
	lens := []int{0, 1, 2, 3, 4, 6, 8}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	}
	v.Bound("addresses: ASCII, up to 8 bytes (12 thorough), every byte arbitrary")
	s := v.Str("addr", "ascii", lens...)
	e, err := identity.NewEmailAddress(s)
	ok := anyWellFormed(s)
	v.Assert(v.Iff(err == nil, ok), "accepted exactly when well-formed")
	v.Note("err", err)
	if err != nil {
		return
	}
	v.Cover("accepted")
	v.Assert(e.Address == s && e.ToString() == s, "address stored verbatim")
	v.Assert(len(e.Domain) < len(s), "domain is a proper part")
	if n := len(s) - len(e.Domain) - 1; n >= 0 {
		v.Assert(v.And(s[n+1:] == e.Domain, s[n] == '@'), "domain is the part after @")
	}
}

// C21_labels: long domain labels, around the limit of 63.
func C21_labels() {
	v.Bound("domain labels of 60-66 bytes and two-label domains around 63+1+63, alphanumerics, hyphens and dots")
	lens := []int{62, 63, 64, 65}
	if v.Thorough() {
		lens = []int{60, 61, 62, 63, 64, 65, 66, 126, 127, 128, 129}
	}
	d := v.Str("domain", "set:aZ0-.", lens...)
	s := "a@" + d
	_, err := identity.NewEmailAddress(s)
	v.Assert(v.Iff(err == nil, wellFormed(s, 1)), "label limits")
}

// C21_position: the limit applies to every label.
func C21_position() {
	v.Bound("a label of 62-65 alphanumerics and hyphens before, after and between others")
	lens := []int{63, 64}
	if v.Thorough() {
		lens = []int{62, 63, 64, 65}
	}
	d := v.Str("label", "set:aZ0-", lens...)
	ends := v.And(d[0] != '-', d[len(d)-1] != '-')
	s := "a@" + v.Pick("before", "", "b.", "b.c-d.") + d + v.Pick("after", "", ".b", ".c.b")
	_, err := identity.NewEmailAddress(s)
	v.Assert(v.Iff(err == nil, v.And(ends, len(d) <= 63)), "label limits")
}

// C21_nonascii: bytes outside ASCII are never accepted.
func C21_nonascii() {
	v.Bound("addresses of 4 and 6 bytes with one byte outside ASCII")
	s := v.Str("pre", "ascii", 0, 1, 2) + string([]byte{0xc3, 0xa9}) + v.Str("post", "ascii", 1, 2)
	_, err := identity.NewEmailAddress(s)
	v.Assert(err != nil, "non-ASCII refused")
}

// C21_user: a user's addresses.
func C21_user() {
	v.Bound("up to three addresses of 3-4 bytes over a small alphabet")
	u := identity.NewUser("alice")
	var want []string
	lens := []int{2, 3}
	for k := 0; k < 3; k++ {
		s := v.Str("addr", "set:aA@.", lens...)
		ok := anyWellFormed(s)
		err := u.AddEmailAddress(s)
		v.Assert(v.Iff(err == nil, ok), "accepted exactly when well-formed")
		if err != nil {
			continue
		}
		dup := false
		for _, w := range want {
			if w == s {
				dup = true
			}
		}
		if !dup {
			want = append(want, s)
		}
	}
	v.Assert(len(u.EmailAddresses) == len(want), "the same address is never held twice")
	v.Assert(u.HasEmailAddresses() == (len(want) > 0), "HasEmailAddresses")
	if len(want) != len(u.EmailAddresses) {
		return
	}
	for i, w := range want {
		v.Assert(u.EmailAddresses[i].Address == w, "addresses in order of addition")
	}
	if len(want) > 0 {
		v.Assert(u.GetMailClaim() == want[0], "mail claim is the first address")
		v.Assert(u.EmailAddress != nil && u.EmailAddress.Address == want[0], "primary record is the first address")
	} else {
		v.Assert(u.GetMailClaim() == "", "no address, no claim")
	}
}
