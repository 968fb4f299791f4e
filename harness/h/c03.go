package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// sameKey tells whether bcrypt takes two texts for the same: it reads 72 bytes
// and repeats shorter texts after a NUL byte.
func sameKey(a, b string) bool {
	eff := func(s string) string {
		s += "\x00"
		t := make([]byte, 72)
		for i := range t {
			t[i] = s[i%len(s)]
		}
		return string(t)
	}
	return v.And(a != b, eff(a) == eff(b))
}

// C03_flags: any flags of three stored passwords, any password presented.
func C03_flags() {
	v.Bound("three stored passwords of 3-4 arbitrary bytes with arbitrary disabled/expired flags; any presented password of 0-5 bytes; presented name is a username or e-mail, in another case, or unknown")
	p := v.TempPath("db.json")
	bob := mkUser(0, "Bob", v.Hash("x"), "bob@x.io", "B2@y.com")
	var pws []string
	bob.Passwords = nil
	lens := []int{3}
	if v.Thorough() {
		lens = []int{3, 4}
	}
	for i := 0; i < 3; i++ {
		s := v.Str("stored", "graph", lens...)
		pws = append(pws, s)
		w := mkPassword(v.Hash(s))
		w.Disabled, w.Expired = v.Bool("disabled"), v.Bool("expired")
		// what the rest of a record says does not matter
		w.Purpose, w.Algorithm, w.Cost = []string{"generic", "", "former"}[i], []string{"bcrypt", "", "BCRYPT"}[i], []int{0, 4, 31}[i]
		w.ExpiredAt = []time.Time{t0, t0.AddDate(900, 0, 0), {}}[i]
		w.DisabledAt = []time.Time{t0.AddDate(900, 0, 0), {}, t0}[i]
		bob.Passwords = append(bob.Passwords, w)
	}
	db := mkDB(p, mkUser(1, "alice", v.Hash("alice-pw"), "alice@x.io"), bob)
	name := v.Pick("name", "bOB", "b2@Y.com", "bo", "")
	cls := "any"
	if name == "bo" || name == "" {
		cls = "graph"
	}
	s := v.Str("given", cls, 0, 2, 3, 4)
	want, near := false, false
	for i, w := range db.Users[1].Passwords {
		on := v.And(v.Not(w.Disabled), v.Not(w.Expired))
		want = v.Or(want, v.And(on, pws[i] == s))
		near = v.Or(near, v.And(on, sameKey(pws[i], s)))
	}
	if name == "bo" || name == "" {
		want = false
	}
	before, file := v.Full(db), v.SnapFile(p)
	ok := auth(db, name, s)
	v.Known("authentication succeeds exactly with an active password", "bcrypt-72", near, v.Iff(ok, want))
	v.Assert(v.Same(before, v.Full(db)), "authentication changes nothing")
	v.Assert(v.Same(file, v.SnapFile(p)), "authentication leaves the file")
	if ok {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
}

// C03_name: any presented name.
func C03_name() {
	v.Bound("every presented name of 0-5, 7-9 and 13 printable bytes against two users, one with an @ in the username")
	lens := []int{0, 1, 3, 5, 7, 8, 13}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17}
	}
	db := mkDB(v.TempPath("db.json"), mkUser(0, "Bob", v.Hash("pw"), "bob@x.io", "B2@y.io"), mkUser(1, "a@b.c", v.Hash("pw"), "al@x.io"))
	n := v.Str("name", "print", lens...)
	want := false
	for _, u := range db.Users {
		want = v.Or(want, fold(u.Username, n))
		for _, m := range u.EmailAddresses {
			want = v.Or(want, fold(m.Address, n))
		}
	}
	v.Assert(v.Iff(auth(db, n, "pw"), want), "exactly the stored names authenticate")
	v.Assert(!auth(db, n, "pW"), "another password does not")
}

// C03_created: the password a user was created with, or changed to, is the
// one which authenticates.
func C03_created() {
	v.Bound("a new user's password of 8-9 printable bytes (blanks included) and any presented password of 6-9 printable bytes")
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash(oldPw), "bob@x.io"))
	lens := []int{8}
	if v.Thorough() {
		lens = []int{8, 9, 10}
	}
	s := v.Str("stored", "print", lens...)
	who := "bob"
	if v.Choose("how", 2) == 0 {
		who = "zoe"
		v.Assume(db.AddUser(newUser("zoe", s, "zoe@x.io")) == nil)
	} else {
		r := req("bob", "bob@x.io")
		r.User.OldPassword, r.User.Password = oldPw, s
		v.Assume(db.ChangeUserPassword(r) == nil)
	}
	g := v.Str("given", "print", 6, 7, 8, 9)
	r := req(who, "")
	// an assertion which comes with the password counts for nothing
	r.User.Password, r.WebAuthn.Request = g, v.Pick("document", "", "e30=", "x")
	ok := db.AuthenticateUser(r) == nil
	v.Assert(v.Iff(ok, r.Response.Code == 200), "authentication code agrees with its error")
	v.Assert(v.Iff(ok, s == g), "exactly the password set authenticates")
	if ok {
		v.Cover("accepted")
	}
}

// C03_long: passwords around and beyond 72 bytes.
func C03_long() {
	v.Bound("stored and presented passwords of 70-100 bytes differing in two arbitrary bytes")
	n := []int{71, 72, 73, 100}[v.Choose("len", 4)]
	m := []int{71, 72, 73, 100}[v.Choose("given", 4)]
	mk := func(n int, a, b byte) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = 'a' + byte(i%26)
		}
		s[7], s[n-1] = a, b
		return string(s)
	}
	c := v.Str("bytes", "graph", 4)
	s, g := mk(n, c[0], c[1]), mk(m, c[2], c[3])
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash(s), "bob@x.io"))
	v.Known("long passwords are compared whole", "bcrypt-72", sameKey(s, g), v.Iff(auth(db, "bob", g), s == g))
}

// C03_malformed: requests with neither password nor assertion, and stored
// hashes which are not hashes.
func C03_malformed() {
	v.Bound("stored hash texts from a catalogue and any two-byte text; empty and non-empty passwords")
	h := v.Pick("hash", "", "x", "$2a$04$", "$2a$99$kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", "plain-text")
	bob := mkUser(0, "bob", h, "bob@x.io")
	db := mkDB(v.TempPath("db.json"), bob)
	s := v.Pick("pw", "plain-text", "", " ", "x")
	v.Assert(!auth(db, "bob", s), "a malformed hash matches nothing")
	r := requests.NewRequest()
	r.User.Username = "bob"
	err := db.AuthenticateUser(r)
	v.Assert(err != nil && r.Response.Code == 400, "an empty request is refused")
	db.Users[0].Passwords = []*identity.Password{}
	v.Assert(!auth(db, "bob", "x"), "a user without passwords is refused")
}
