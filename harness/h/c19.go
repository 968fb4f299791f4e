package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// stranger assumes that a name is none of twoUsers.
func stranger(n string) string {
	for _, k := range []string{"bob1", "alice", "bob1@x.io", "b@y.com", "alice@x.io"} {
		v.Assume(v.Not(fold(n, k)))
	}
	return n
}

func strangeName() string {
	lens := []int{0, 1, 4, 5, 7}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 60}
	}
	return stranger(v.Str("name", "ascii", lens...))
}

// neutral checks the identity of an unknown user.
func neutral(r *requests.Request) {
	v.Assert(v.And(r.User.Username == "nobody", r.User.Email == "nobody@localhost"), "an unknown user is identified as nobody")
	v.Assert(v.And(len(r.User.Challenges) == 1, len(r.User.Challenges) > 0 && r.User.Challenges[0] == "password"), "nobody is challenged for a password")
	v.Assert(v.And(len(r.User.Roles) == 0, r.User.FullName == ""), "nobody has neither roles nor a name")
	v.Assert(v.Not(v.Or(r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal)), "nobody has no MFA flags")
}

// prefill puts something in every field which IdentifyUser answers.
func prefill(r *requests.Request) {
	r.User.Email = v.Str("email", "print", 0, 9)
	r.User.FullName = v.Str("full", "print", 0, 2)
	if v.Choose("lists", 2) == 1 {
		r.User.Roles = []string{v.Str("role", "print", 2), "admin"}
		r.User.Challenges = []string{v.Str("challenge", "print", 3), "mfa"}
	}
	r.Flags.Enabled = v.Bool("flags")
	r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal = v.Bool("configured"), v.Bool("app"), v.Bool("universal")
	r.Response.Code = v.Int("code", 0, 599)
}

// C19_identify: unknown users are identified as nobody.
func C19_identify() {
	v.Bound("two users; every unknown name of 0, 1, 4, 5 or 7 ASCII bytes; requests pre-filled with any e-mail, name, roles, challenges, flags and code")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	before, file := v.Full(db), v.SnapFile(p)
	r := req(strangeName(), "")
	prefill(r)
	code := r.Response.Code
	err := db.IdentifyUser(r)
	v.Assert(err == nil, "an unknown user is identified")
	neutral(r)
	v.Assert(v.And(r.Response.Code == code, silent(r)), "the answer holds nothing else")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "identification changes nothing")
}

// C19_empty: a database without users.
func C19_empty() {
	v.Bound("databases without users; every name of 0, 1, 4, 5 or 7 ASCII bytes")
	p := v.TempPath("db.json")
	db := mkDB(p)
	n := v.Str("name", "ascii", 0, 1, 4, 5, 7)
	r := req(n, "")
	prefill(r)
	v.Assert(db.IdentifyUser(r) == nil, "an unknown user is identified")
	neutral(r)
	v.Assert(!auth(db, n, "Secret-old"), "an unknown user does not authenticate")
}

// C19_near: names which resemble those of users.
func C19_near() {
	v.Bound("a catalogue of names resembling, or stored in other fields of, the users")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	n := v.Pick("name", "bob", "bob11", " bob1", "bob1 ", "bob1\x00", "@x.io", "bob1@", "bob1@x.i", "bob1@x.io ", "b@Y.com.", "bob1@y.com", "nobody", "nobody@localhost",
		uids[0], uids[1], "First Bob1", "user-Bob1", "key", "tok", apiText(0, 0), "%", "*", "b\u00f6b1", "\u212aob1", "ali\u0441e")
	r := req(n, "bob1@x.io")
	prefill(r)
	r.User.Email = "bob1@x.io"
	v.Assert(db.IdentifyUser(r) == nil, "an unknown user is identified")
	neutral(r)
	v.Assert(!auth(db, n, oldPw), "an unknown user does not authenticate")
}

// attempt authenticates and returns the outcome, code and hashing work.
func attempt(db *identity.Database, name, pw, doc string) (error, int, int) {
	r := req(name, "")
	r.User.Password, r.WebAuthn.Request = pw, doc
	w := v.HashWork()
	err := db.AuthenticateUser(r)
	return err, r.Response.Code, v.HashWork() - w
}

// C19_auth: unknown users fail like wrong passwords.
func C19_auth() {
	v.Bound("a user added with a password by the API; every unknown name of 0 or 4 ASCII bytes; every wrong password of 0, 1, 3, 9 or 72 ASCII bytes other than NUL; with or without a WebAuthn document")
	p := v.TempPath("db.json")
	db := mkDB(p)
	v.HashWork()
	v.Assume(db.AddUser(newUser("bob1", oldPw, "bob1@x.io")) == nil)
	v.Assume(db.AddUser(newUser("alice", oldPw, "alice@x.io")) == nil)
	pw := v.Str("password", "ascii", 0, 1, 3, 9, 72)
	v.Assume(v.And(pw != oldPw, v.Not(sameKey(pw, oldPw))))
	doc := v.Pick("document", "", "e30=")
	n := stranger(v.Str("name", "ascii", 0, 4))
	before, file := v.Full(db), v.SnapFile(p)
	e1, c1, w1 := attempt(db, n, pw, doc)
	v.Assert(e1 != nil, "an unknown user does not authenticate")
	e2, c2, w2 := attempt(db, v.Pick("known", "bob1", "BOB1@x.io"), pw, doc)
	v.Assert(e2 != nil, "a wrong password does not authenticate")
	v.Assert(v.And(c1 == c2, c1 != 200), "an unknown user fails with the code of a wrong password")
	v.Assert(w1 == w2, "an unknown user costs as much hashing as a wrong password")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "authentication changes nothing")
}

// C19_right: neither does the right password of another user help.
func C19_right() {
	v.Bound("two users; every unknown name of 0, 1, 4, 5 or 7 ASCII bytes; the right password of a user")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	e, c, w := attempt(db, strangeName(), oldPw, "")
	v.Assert(v.And(e != nil, c == 400), "an unknown user does not authenticate with the password of another")
	v.Assert(w >= 1<<8, "an unknown user costs hashing")
}
