package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// Histories: answers follow the stored records at the time of the request,
// whatever was asked before.

// C03_revoked: passwords which stop, or start, being active.
func C03_revoked() {
	v.Bound("a user with two passwords; up to 7 refused and 2 accepted attempts; then any flags set on either password, or the record disabled, or the password changed; asked twice")
	p := v.TempPath("db.json")
	bob := mkUser(0, "bob", v.Hash("Secret-one"), "bob@x.io")
	bob.Passwords = append(bob.Passwords, mkPassword(v.Hash("Secret-two")))
	db := mkDB(p, bob, mkUser(1, "alice", v.Hash("Secret-alice"), "alice@x.io"))
	wrong, right := v.Choose("wrong", 8), v.Choose("right", 3)
	for i := 0; i < wrong; i++ {
		v.Assert(!auth(db, "bob", nth("wrong-", i)), "a wrong password is refused")
	}
	for i := 0; i < right; i++ {
		v.Assert(auth(db, []string{"bob", "bob@x.io"}[i], "Secret-one") && auth(db, "Bob", "Secret-two"), "an active password is accepted after any refusals")
	}
	w := db.Users[0].Passwords
	a, b := true, true
	switch v.Choose("then", 3) {
	case 0:
		w[0].Disabled, w[0].Expired, w[1].Disabled, w[1].Expired = v.Bool("d0"), v.Bool("e0"), v.Bool("d1"), v.Bool("e1")
		a, b = v.And(v.Not(w[0].Disabled), v.Not(w[0].Expired)), v.And(v.Not(w[1].Disabled), v.Not(w[1].Expired))
	case 1:
		w[0].Disable()
		a = false
	case 2:
		v.Assume(change(db, "bob", "Secret-two", nextPw) == nil)
		a, b = false, false
		v.Assert(auth(db, "bob", nextPw), "the new password is accepted")
	}
	for i := 0; i < 2; i++ {
		v.Assert(v.Iff(auth(db, "bob", "Secret-one"), a), "a password is accepted exactly while it is active (first)")
		v.Assert(v.Iff(auth(db, "bob", "Secret-two"), b), "a password is accepted exactly while it is active (second)")
		v.Assert(!auth(db, "alice", "Secret-one") && !auth(db, "bob", "Secret-alice"), "another user's password is refused")
	}
	v.Assert(auth(db, "alice", "Secret-alice"), "other users' passwords are accepted")
}

// C06_revoked: keys which stop, or start, being active.
func C06_revoked() {
	v.Bound("two keys of a user with arbitrary flags, each looked up or not; then any flags set on either, or one disabled or deleted; each looked up twice, and after reopening")
	p := v.TempPath("db.json")
	db, is := keyDB(p)
	look := func(d *identity.Database) {
		for i := range is {
			if is[i].text != "" {
				_, err := lookup(d, is[i].text)
				v.Assert(v.Iff(err == nil, v.And(v.Not(is[i].disabled), v.Not(is[i].expired))), "a key is found exactly while it is active")
			}
		}
	}
	for n := v.Choose("before", 3); n > 0; n-- {
		look(db)
	}
	ks := db.Users[0].APIKeys
	switch i := v.Choose("which", 2); v.Choose("then", 4) {
	case 0:
		for j := range ks {
			ks[j].Disabled, ks[j].Expired = v.Bool(nth("d", j)), v.Bool(nth("e", j))
			is[j].disabled, is[j].expired = ks[j].Disabled, ks[j].Expired
		}
	case 1:
		ks[i].Disable()
		is[i].disabled = true
	case 2:
		r := req("bob", "bob@x.io")
		r.Key.ID = ks[i].ID
		v.Assert(db.DeleteAPIKey(r) == nil, "deleted")
		is[i].disabled = true
	case 3:
		// the key gets another text
		ks[i].Payload = v.Hash(is[i].text[:60] + "another-text")
		is[i].disabled = true
	}
	look(db)
	look(db)
	v.Assume(db.Save() == nil)
	look(reopen(p))
}

// C11_revoked: tokens which stop, or start, being enabled.
func C11_revoked() {
	v.Bound("two security keys of a user, each asserted up to twice, then any flag set on either, or one disabled or deleted, or its stored key replaced; both asserted again")
	p := v.TempPath("db.json")
	db := stickDB(p, mkStick(0, "credA"), mkStick(1, "credB"))
	a, b := b64(genuine(0, "credA").doc()), b64(genuine(1, "credB").doc())
	for n := v.Choose("before", 3); n > 0; n-- {
		v.Assert(assertAs(db, "bob", a, "issued") && assertAs(db, "bob", b, "issued"), "a genuine assertion is accepted again")
		v.Assert(!assertAs(db, "bob", a, "other"), "for another challenge it is not")
	}
	ts := db.Users[0].MfaTokens
	okA, okB := true, true
	switch v.Choose("then", 4) {
	case 0:
		ts[0].Disabled, ts[1].Disabled = v.Bool("d0"), v.Bool("d1")
		okA, okB = v.Not(ts[0].Disabled), v.Not(ts[1].Disabled)
	case 1:
		ts[0].Disable()
		okA = false
	case 2:
		r := req("bob", "bob@x.io")
		r.MfaToken.ID = ts[0].ID
		v.Assert(db.DeleteMfaToken(r) == nil, "deleted")
		okA = false
	case 3:
		ts[0].Parameters["curve_xcoord"], ts[0].Parameters["curve_ycoord"] = b64b(v.KeyX(2)), b64b(v.KeyY(2))
		okA = false
	}
	for n := 0; n < 2; n++ {
		v.Assert(v.Iff(assertAs(db, "bob", a, "issued"), okA), "an assertion is accepted exactly while its token is enabled (first)")
		v.Assert(v.Iff(assertAs(db, "bob", b, "issued"), okB), "an assertion is accepted exactly while its token is enabled (second)")
	}
}

// C10_history: a code does not depend on those tried before.
func C10_history() {
	v.Bound("up to six codes, right or wrong, tried before; then any 6-digit code")
	tok := mkTok("t", "a-secret", "phone")
	tok.Period = 300
	right := enrolCode("a-secret", "sha1", 6, 300)
	for i, n := 0, v.Choose("before", 7); i < n; i++ {
		if i%2 == 0 {
			tok.ValidateCode("000" + nth("10", i))
		} else {
			v.Assert(tok.ValidateCode(right) == nil, "a right code is accepted")
		}
	}
	c := v.Str("code", "digit", 6)
	err := tok.ValidateCode(c)
	v.Assert(v.Implies(c == right, err == nil), "a right code is accepted whatever was tried before")
	may := false
	for i := -3; i <= 1; i++ {
		may = v.Or(may, c == totp("a-secret", "sha1", 6, uint64(time.Now().Unix()/300)+uint64(i)))
	}
	v.Assert(v.Implies(err == nil, may), "a wrong code is refused whatever was tried before")
}

// C27_history: what identification tells follows the records.
func C27_history() {
	v.Bound("a user identified up to twice, then any token enabled or disabled, roles and names changed; identified again")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	u := db.Users[0]
	ask := func() {
		r := req("bob1", "")
		r.Flags.Enabled = true
		v.Assert(db.IdentifyUser(r) == nil, "identified")
		app, key := v.Not(u.MfaTokens[0].Disabled), v.Not(u.MfaTokens[1].Disabled)
		v.Assert(v.And(v.Iff(r.Flags.MfaApp, app), v.Iff(r.Flags.MfaUniversal, key), v.Iff(r.Flags.MfaConfigured, v.Or(app, key))), "the flags follow the records")
		v.Assert(v.Iff(len(r.User.Challenges) == 2, v.Or(app, key)), "the challenges follow the records")
		v.Assert(len(r.User.Roles) == 1 && r.User.Roles[0] == u.Roles[0].Name && r.User.FullName == claim(u.Name.First, u.Name.Last), "the claims follow the records")
	}
	for n := v.Choose("before", 3); n > 0; n-- {
		ask()
	}
	u.MfaTokens[0].Disabled, u.MfaTokens[1].Disabled = v.Bool("d0"), v.Bool("d1")
	u.Roles[0].Name, u.Name.Last = v.Str("role", "lower", 3), v.Str("last", "alnum", 2)
	ask()
	ask()
}
