package h

import (
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/errors"
)

// C05_limits: any stored limits and texts of any length.
func C05_limits() {
	v.Bound("length limits of 0-9 each in any order; usernames and passwords of 1-11 bytes; added or changed")
	p := v.TempPath("db.json")
	un, ux := v.Int("umin", 0, 9), v.Int("umax", 0, 9)
	pn, px := v.Int("pmin", 0, 9), v.Int("pmax", 0, 9)
	kv := v.Int("keep", 0, 12)
	v.WriteJSON(p, &identity.Database{Revision: 7, LastModified: t0, Users: []*identity.User{mkUser(0, "bob", v.Hash(oldPw), "bob@x.io")},
		Policy: identity.Policy{User: identity.UserPolicy{MinLength: un, MaxLength: ux}, Password: identity.PasswordPolicy{KeepVersions: kv, MinLength: pn, MaxLength: px}}})
	db, err := identity.NewDatabase(p)
	v.Assert(err == nil, "a policy never hinders opening")
	v.Assume(err == nil)
	or := func(a, b int) int {
		if a == 0 {
			return b
		}
		return a
	}
	un, ux, pn, px, kv = or(un, 3), or(ux, 50), or(pn, 8), or(px, 128), or(kv, 10)
	q := db.Policy
	v.Assert(v.And(q.User.MinLength == un, q.User.MaxLength == ux, q.Password.MinLength == pn, q.Password.MaxLength == px, q.Password.KeepVersions == kv), "unset limits take the defaults, set ones are kept")
	lens := []int{1, 2, 3, 8, 9, 10, 11}
	n, w := lens[v.Choose("nlen", len(lens))], lens[v.Choose("wlen", len(lens))]
	uok := v.And(un <= n, n <= ux)
	pok := v.And(pn <= w, w <= px)
	before, file := v.Full(db), v.SnapFile(p)
	pw := strings.Repeat("q", w)
	if v.Choose("how", 2) == 0 {
		err = db.AddUser(newUser(strings.Repeat("z", n), pw, "z@x.io"))
		v.Assert(v.Iff(err == nil, v.And(uok, pok)), "a user is added exactly when both lengths lie within the policy")
		if err != nil {
			v.Assert(err.Error() == errors.ErrAddUser.WithArgs(strings.Repeat("z", n), pick(uok, errors.ErrPasswordPolicyCompliance, errors.ErrUserPolicyCompliance)).Error(), "refused with the policy error")
		}
	} else {
		v.Assume(n == 1)
		err = change(db, "bob", oldPw, pw)
		v.Assert(v.Iff(err == nil, pok), "a password is changed exactly when its length lies within the policy")
		if err != nil {
			v.Assert(err.Error() == errors.ErrChangeUserPassword.WithArgs(errors.ErrPasswordPolicyCompliance).Error(), "change refused with the policy error")
		}
	}
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refusal changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refusal leaves the file")
	} else {
		v.Cover("accepted")
	}
}

func pick(c bool, a, b error) error {
	if c {
		return a
	}
	return b
}

// C05_signed: limits beyond the usual range.
func C05_signed() {
	v.Bound("one limit at a time takes any 32-bit value")
	p := v.TempPath("db.json")
	q := identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128}}
	x := v.Int("limit", -1<<31, 1<<31-1)
	k := v.Choose("which", 5)
	f := []*int{&q.User.MinLength, &q.User.MaxLength, &q.Password.MinLength, &q.Password.MaxLength, &q.Password.KeepVersions}[k]
	def := *f
	*f = x
	v.WriteJSON(p, &identity.Database{Revision: 7, LastModified: t0, Policy: q})
	db, err := identity.NewDatabase(p)
	v.Assert(err == nil, "opens with any limit")
	v.Assume(err == nil)
	if x == 0 {
		*f = def
	}
	v.Assert(v.Same(v.Snap(&q), v.Snap(&db.Policy)), "limit kept as stored, default when zero")
	v.Assert(v.Same(v.Snap(&q), v.Snap(&reopen(p).Policy)), "limit the same after reopening")
	err = db.AddUser(newUser("zoey", "password9", "z@x.io"))
	ok := true
	if k < 4 {
		ok = v.And(q.User.MinLength <= 4, 4 <= q.User.MaxLength, q.Password.MinLength <= 9, 9 <= q.Password.MaxLength)
	}
	v.Assert(v.Iff(err == nil, ok), "the stored limit is enforced")
}

// C05_fresh: the policy of a new database, and its boundaries.
func C05_fresh() {
	v.Bound("a new database; username lengths 0-4, 49-51 and password lengths 0, 7-9, 127-129")
	db, err := identity.NewDatabase(v.TempPath("db.json"))
	v.Assume(err == nil)
	ns, ws := []int{0, 1, 2, 3, 4, 49, 50, 51}, []int{0, 7, 8, 9, 127, 128, 129}
	n, w := ns[v.Choose("n", len(ns))], ws[v.Choose("w", len(ws))]
	err = db.AddUser(newUser(strings.Repeat("z", n), strings.Repeat("q", w), "z@x.io"))
	v.Assert((err == nil) == (3 <= n && n <= 50 && 8 <= w && w <= 128), "the default limits are 3-50 and 8-128")
	v.Assert(db.Policy.Password.KeepVersions == 10, "ten versions by default")
	v.Assert((db.GetUserCount() == 1) == (err == nil), "counted exactly when added")
}

// C05_bytes: lengths count bytes, not characters.
func C05_bytes() {
	v.Bound("user name limits 3-6 and password limits 8-11; names of 1-3 and passwords of 3-5 characters of two or three bytes, or passwords of 5 letters with 0-4 blanks, line ends or NUL bytes before and after, names of 2 letters with 0-5 blanks likewise; added or changed")
	p := v.TempPath("db.json")
	v.WriteJSON(p, &identity.Database{Revision: 7, LastModified: t0, Users: []*identity.User{mkUser(0, "bob", v.Hash(oldPw), "bob@x.io")},
		Policy: identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 6}, Password: identity.PasswordPolicy{KeepVersions: 3, MinLength: 8, MaxLength: 11}}})
	db, err := identity.NewDatabase(p)
	v.Assume(err == nil)
	c := v.Pick("char", "\u00e9", "\u20ac")
	w := strings.Repeat(c, 3+v.Choose("w", 3))
	if v.Choose("blanks", 2) == 1 {
		// blanks count like anything else
		b := v.Pick("blank", " ", "\n", "\x00")
		w = strings.Repeat(b, v.Choose("before", 5)) + "passw" + strings.Repeat(b, v.Choose("after", 5))
	}
	pok := 8 <= len(w) && len(w) <= 11
	if v.Choose("how", 2) == 0 {
		n := strings.Repeat(c, 1+v.Choose("n", 3))
		if v.Choose("nblanks", 2) == 1 {
			n = strings.Repeat(" ", v.Choose("nbefore", 3)*2) + "zo" + strings.Repeat(" ", v.Choose("nafter", 6))
		}
		err = db.AddUser(newUser(n, w, "z@x.io"))
		v.Assert((err == nil) == (pok && 3 <= len(n) && len(n) <= 6), "a user is added exactly when both lengths lie within the policy")
	} else {
		v.Assert((change(db, "bob", oldPw, w) == nil) == pok, "a password is changed exactly when its length lies within the policy")
	}
}
