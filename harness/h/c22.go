package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// refName splits a name in one of the two documented forms.
func refName(s string) (first, last string, ok bool) {
	if c := index(s, ','); c >= 0 {
		if index(s[c+1:], ',') >= 0 {
			return "", "", false
		}
		last, first = trim(s[:c]), trim(s[c+1:])
		return first, last, first != "" && last != ""
	}
	b := index(s, ' ')
	if b < 0 || index(s[b+1:], ' ') >= 0 {
		return "", "", false
	}
	first, last = trim(s[:b]), trim(s[b+1:])
	return first, last, first != "" && last != ""
}

// C22_parse: parsing and rendering.
func C22_parse() {
	lens := []int{0, 1, 2, 3, 4, 5}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7}
	}
	v.Bound("names: ASCII, 0-5 bytes (7 thorough)")
	s := v.Str("name", "ascii", lens...)
	n, err := identity.ParseName(s)
	first, last, ok := refName(s)
	v.Note("err", err)
	v.Assert(v.Iff(err == nil, ok), "exactly the two forms are accepted")
	if err != nil {
		return
	}
	v.Cover("parsed")
	full := n.GetFullName()
	v.Note("full", full)
	if ok {
		v.Assert(n.First == first, "first name")
		v.Assert(n.Last == last, "last name")
		v.Assert(full == last+", "+first, "rendered as Last, First")
	}
	v.Assert(n.GetNameClaim() == full && n.ToString() == full, "claim and string agree")
	m, err := identity.ParseName(full)
	v.Assert(err == nil, "the rendering parses")
	if err == nil {
		v.Assert(v.And(m.First == n.First, m.Last == n.Last), "the rendering parses to the same name")
	}
}

// C22_user: a user's names.
func C22_user() {
	v.Bound("three names per user, last names of 1 byte, first names of 0-2 bytes, any flags and other parts")
	u := identity.NewUser("alice")
	var want []string
	for k := 0; k < 3; k++ {
		n := &identity.Name{First: v.Str("first", "print", 0, 1, 2), Last: v.Str("last", "print", 1)}
		n.Middle, n.Preferred = v.Str("middle", "print", 1), v.Str("preferred", "print", 1)
		n.Nickname, n.Confirmed, n.Primary, n.Legal, n.Alias = v.Bool("nickname"), v.Bool("confirmed"), v.Bool("primary"), v.Bool("legal"), v.Bool("alias")
		f := n.Last
		if n.First != "" {
			f += ", " + n.First
		}
		err := u.AddName(n)
		v.Assert(err == nil, "name accepted")
		dup := false
		for _, w := range want {
			if w == f {
				dup = true
			}
		}
		if !dup {
			want = append(want, f)
		}
	}
	v.Assert(len(u.Names) == len(want), "the same full name is never listed twice")
	if len(u.Names) == len(want) {
		for i := range want {
			v.Assert(u.Names[i].GetFullName() == want[i], "names in order of addition")
		}
	}
	v.Assert(u.GetFullName() == want[0], "the first name is the primary one")
	v.Assert(u.GetNameClaim() == want[0], "the claim is the primary name")
}
