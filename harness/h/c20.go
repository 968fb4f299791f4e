package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// C20_roundtrip: parsing and rendering a role name.
func C20_roundtrip() {
	n := []int{0, 1, 2, 3, 4, 5}
	if v.Thorough() {
		n = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	}
	v.Bound("role names: ASCII, 0-5 bytes (8 in the thorough tier)")
	s := v.Str("role", "ascii", n...)
	t := trim(s)
	r, err := identity.NewRole(s)
	v.Note("err", err)
	if t == "" {
		v.Assert(err != nil, "blank role name refused")
		return
	}
	v.Assert(err == nil, "role name accepted")
	if err != nil {
		return
	}
	v.Cover("accepted")
	v.Note("role", r.String())
	v.Assert(r.String() == t, "rendering gives back the trimmed name")
	if i := index(t, '/'); i > 0 {
		v.Assert(r.Organization == t[:i], "organisation is the part before the first slash")
		v.Assert(r.Name == t[i+1:], "name is the part after the first slash")
	} else if i < 0 {
		v.Assert(r.Organization == "", "no organisation without a slash")
		v.Assert(r.Name == t, "name without a slash")
	}
	r2, err := identity.NewRole(r.String())
	v.Assert(err == nil, "rendered role parses")
	if err == nil {
		v.Assert(r2.Name == r.Name && r2.Organization == r.Organization, "rendered role parses to the same role")
	}
}

// C20_membership: roles are a set in order of addition.
func C20_membership() {
	v.Bound("membership: three additions and one query, ASCII role names of 0-3 bytes")
	lens := []int{1, 3}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4}
	}
	u := identity.NewUser("alice")
	var want []string
	for k := 0; k < 2; k++ {
		s := v.Str("add", "set:ab/ A", lens...)
		t := trim(s)
		before := u.Revision
		err := u.AddRole(s)
		v.Assert(v.Iff(err != nil, t == ""), "exactly blank roles refused")
		dup := t == ""
		for _, w := range want {
			if w == t {
				dup = true
			}
		}
		if !dup {
			want = append(want, t)
		} else {
			v.Assert(u.Revision == before, "no change, no revision")
		}
	}
	got := u.GetRolesClaim()
	v.Assert(len(got) == len(want), "one entry per role")
	v.Assert(len(u.Roles) == len(want), "one record per role")
	v.Assert(u.HasRoles() == (len(want) > 0), "HasRoles")
	if len(got) == len(want) {
		for i := range want {
			v.Assert(got[i] == want[i], "claims in order of addition")
		}
	}
	q := v.Str("query", "set:ab/ A", lens...)
	t := trim(q)
	has := false
	for _, w := range want {
		has = v.Or(has, w == t)
	}
	v.Assert(v.Iff(u.HasRole(q), v.And(has, t != "")), "membership is exact")
}

// C20_batch: a batch of roles, as given to a new user.
func C20_batch() {
	v.Bound("batches of two roles of 1-2 bytes")
	a := v.Str("a", "set:ab/ ", 1, 2)
	b := v.Str("b", "set:ab/ ", 1, 2)
	u := identity.NewUser("alice")
	err := u.AddRoles([]string{a, b})
	v.Assert(v.Iff(err == nil, v.And(trim(a) != "", trim(b) != "")), "a batch with a blank role is refused")
	if err == nil {
		v.Assert(v.And(u.HasRole(a), u.HasRole(b)), "every role of the batch is held")
	}
}
