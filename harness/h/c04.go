package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

func change(db *identity.Database, name, old, pw string) error {
	r := req(name, name+"@x.io")
	r.User.OldPassword, r.User.Password = old, pw
	return db.ChangeUserPassword(r)
}

// C04_change: one change from any flags, with any old and new password.
func C04_change() {
	v.Bound("three stored passwords of 8 letters with arbitrary flags; any old password of 0, 7 or 8 and any new one of 8-9 printable bytes; any probe of 8 bytes")
	p := v.TempPath("db.json")
	bob := mkUser(0, "bob", "", "bob@x.io")
	bob.Passwords = nil
	pws := []string{"aaaaaaaa", "bbbbbbbb", "cccccccc"}
	for _, s := range pws {
		w := mkPassword(v.Hash(s))
		w.Disabled, w.Expired = v.Bool("disabled"), v.Bool("expired")
		bob.Passwords = append(bob.Passwords, w)
	}
	alice := mkUser(1, "alice", v.Hash(oldPw), "alice@x.io")
	db := mkDB(p, bob, alice)
	old := v.Str("old", "print", 0, 8)
	pw := v.Str("new", "graph", 8, 9)
	may := false
	var was []bool
	for i, w := range db.Users[0].Passwords {
		a := v.And(v.Not(w.Disabled), v.Not(w.Expired))
		was = append(was, a)
		may = v.Or(may, v.And(a, pws[i] == old))
	}
	before, file := v.Full(db), v.SnapFile(p)
	a0 := v.Full(db.Users[1])
	err := change(db, "bob", old, pw)
	v.Assert(v.Iff(err == nil, may), "a change needs exactly an active password")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refused change changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refused change leaves the file")
		return
	}
	v.Cover("changed")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep theirs")
	for _, d := range []*identity.Database{db, reopen(p)} {
		v.Assert(auth(d, "bob", pw), "the new password authenticates")
		for _, s := range pws {
			v.Assert(v.Iff(auth(d, "bob", s), s == pw), "no earlier password authenticates")
		}
		n := 0
		for i, w := range d.Users[0].Passwords {
			if i > 0 {
				v.Assert(w.Disabled, "earlier passwords are disabled")
				v.Assert(w.Match(pws[i-1]), "earlier passwords are kept newest first")
				n++
			}
		}
		v.Assert(n == 3, "earlier passwords are kept")
	}
}

func reopen(p string) *identity.Database {
	d, err := identity.NewDatabase(p)
	v.Assert(err == nil, "the database reopens")
	v.Assume(err == nil)
	return d
}

// C04_history: a sequence of changes under any keep-versions limit.
func C04_history() {
	v.Bound("8 changes (thorough: 14) in a row under keep-versions -1 to 5 (thorough: to 12)")
	hi, n := 5, 8
	if v.Thorough() {
		hi, n = 12, 14
	}
	keep := v.Int("keep", -1, hi)
	v.Assume(keep != 0)
	p := v.TempPath("db.json")
	db := openWith(p, &identity.Database{Revision: 7, LastModified: t0, Users: []*identity.User{mkUser(0, "bob", v.Hash("password-0"), "bob@x.io")},
		Policy: identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: keep, MinLength: 8, MaxLength: 128}}})
	pw := func(i int) string { return "password-" + string(rune('0'+i)) }
	for i := 1; i <= n; i++ {
		v.Assert(change(db, "bob", pw(i-1), pw(i)) == nil, "the latest password permits the next change")
		l := db.Users[0].Passwords
		v.Assert(len(l) > 0 && l[0].Match(pw(i)) && !l[0].Disabled && !l[0].Expired, "the newest password comes first")
		for j, w := range l {
			if j > 0 {
				v.Assert(w.Disabled && w.Match(pw(i-j)), "history holds the earlier passwords, newest first")
			}
		}
		if keep > 0 {
			v.Assert(len(l)-1 <= keep, "at most keep-versions earlier passwords are kept")
			if i >= 1 && keep > 1 {
				v.Assert(len(l)-1 >= 1, "an earlier password is kept")
			}
			if i < keep {
				v.Assert(len(l)-1 == i, "earlier passwords are kept up to the limit")
			}
		}
	}
	v.Assert(change(db, "bob", pw(n-1), "password-z") != nil, "a retired password permits no change")
	v.Assert(change(db, "bob", pw(0), "password-z") != nil, "the first password permits no change")
}

// C04_user: the password list of a user identity on its own.
func C04_user() {
	v.Bound("6 passwords added to a user under keep-versions -2 to 4")
	keep := v.Int("keep", -2, 4)
	u := identity.NewUser("bob")
	for i := 0; i < 6; i++ {
		rev := u.Revision
		v.Assert(u.AddPassword("password-"+string(rune('0'+i)), keep) == nil, "password added")
		v.Assert(u.Revision == rev+1, "an addition advances the user's revision")
		for j, w := range u.Passwords {
			v.Assert(v.Iff(w.Disabled, j > 0), "only the latest password is active")
		}
		if keep > 0 {
			v.Assert(len(u.Passwords)-1 <= keep, "a user keeps at most keep-versions earlier passwords")
		}
		v.Assert(u.VerifyPassword("password-"+string(rune('0'+i))) == nil, "latest verifies")
		if i > 0 {
			v.Assert(u.VerifyPassword("password-"+string(rune('0'+i-1))) != nil, "previous does not verify")
		}
	}
	before := v.Full(u)
	v.Assert(u.AddPassword(v.Pick("blank", "", " ", "\t\n"), keep) != nil, "a blank password is refused")
	v.Assert(v.Same(before, v.Full(u)), "a refused password changes nothing")
}
