package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C32_disable: the Disable methods.
func C32_disable() {
	v.Bound("a credential of each kind with any disabled and expired flag before, and any times; disabled once or twice at any time from 1970 to 2106")
	v.SymClock()
	past := t0
	d, e := v.Bool("disabled"), v.Bool("expired")
	k := v.Choose("kind", 4)
	pw := &identity.Password{Purpose: "generic", Algorithm: "bcrypt", Hash: "hash", Cost: 10, CreatedAt: past, Disabled: d, Expired: e}
	api := &identity.APIKey{ID: "id", Prefix: "p", Usage: "api", Payload: "payload", CreatedAt: past, Disabled: d, Expired: e}
	pub := &identity.PublicKey{ID: "id", Usage: "ssh", Payload: "payload", CreatedAt: past, Disabled: d, Expired: e}
	mfa := &identity.MfaToken{ID: "id", Type: "totp", Secret: "secret", CreatedAt: past, Disabled: d, Expired: e}
	var disable func()
	var flags func() (bool, bool, time.Time, time.Time)
	var record interface{}
	switch k {
	case 0:
		disable, record = pw.Disable, pw
		flags = func() (bool, bool, time.Time, time.Time) { return pw.Disabled, pw.Expired, pw.DisabledAt, pw.ExpiredAt }
	case 1:
		disable, record = api.Disable, api
		flags = func() (bool, bool, time.Time, time.Time) {
			return api.Disabled, api.Expired, api.DisabledAt, api.ExpiredAt
		}
	case 2:
		disable, record = pub.Disable, pub
		flags = func() (bool, bool, time.Time, time.Time) {
			return pub.Disabled, pub.Expired, pub.DisabledAt, pub.ExpiredAt
		}
	case 3:
		disable, record = mfa.Disable, mfa
		flags = func() (bool, bool, time.Time, time.Time) {
			return mfa.Disabled, mfa.Expired, mfa.DisabledAt, mfa.ExpiredAt
		}
	}
	if v.Choose("twice", 2) == 1 {
		disable()
	}
	t1 := time.Now()
	disable()
	t2 := time.Now()
	a, b, at, bt := flags()
	v.Assert(v.And(a, b), "disabling marks disabled and expired")
	v.Assert(v.And(within(at, t1, t2), within(bt, t1, t2)), "disabling marks the time")
	// and nothing else
	pw.Disabled, pw.Expired, pw.DisabledAt, pw.ExpiredAt = false, false, past, past
	api.Disabled, api.Expired, api.DisabledAt, api.ExpiredAt = false, false, past, past
	pub.Disabled, pub.Expired, pub.DisabledAt, pub.ExpiredAt = false, false, past, past
	mfa.Disabled, mfa.Expired, mfa.DisabledAt, mfa.ExpiredAt = false, false, past, past
	var want interface{}
	switch k {
	case 0:
		want = &identity.Password{Purpose: "generic", Algorithm: "bcrypt", Hash: "hash", Cost: 10, CreatedAt: past, DisabledAt: past, ExpiredAt: past}
	case 1:
		want = &identity.APIKey{ID: "id", Prefix: "p", Usage: "api", Payload: "payload", CreatedAt: past, DisabledAt: past, ExpiredAt: past}
	case 2:
		want = &identity.PublicKey{ID: "id", Usage: "ssh", Payload: "payload", CreatedAt: past, DisabledAt: past, ExpiredAt: past}
	case 3:
		want = &identity.MfaToken{ID: "id", Type: "totp", Secret: "secret", CreatedAt: past, DisabledAt: past, ExpiredAt: past}
	}
	v.Assert(v.Same(v.Snap(record), v.Snap(want)), "disabling changes nothing else")
}

// C32_created: credentials created as disabled.
func C32_created() {
	v.Bound("public keys (SSH, PGP), API keys and MFA tokens (totp, u2f) added as disabled or not, to a user with another such credential")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m := mkMut([]int{0, 2, 4}[v.Choose("op", 3)], "0", fixText)
	t1 := time.Now().UTC().Truncate(time.Second)
	v.Assume(m.run(db) == nil)
	t2 := time.Now()
	if v.Choose("reopen", 2) == 1 {
		db = reopen(p)
	}
	u := db.Users[0]
	var want, off bool
	var at, made time.Time
	switch m.name {
	case "AddPublicKey":
		k := u.PublicKeys[2]
		want, off, at, made = m.r.Key.Disabled, k.Disabled, k.DisabledAt, k.CreatedAt
	case "AddAPIKey":
		k := u.APIKeys[2]
		want, off, at, made = m.r.Key.Disabled, k.Disabled, k.DisabledAt, k.CreatedAt
	case "AddMfaToken":
		k := u.MfaTokens[2]
		want, off, at, made = m.r.MfaToken.Disabled, k.Disabled, k.DisabledAt, k.CreatedAt
	}
	v.Assert(off == want, "a credential is disabled exactly when asked for")
	if want {
		v.Assert(v.And(within(at, t1, t2), within(made, t1, t2)), "a credential created as disabled has its creation time")
		n := 1
		v.Assert(len(listPub(db, "bob1", "ssh")) == n && len(listKeys(db, "bob1", "api")) == n && len(listMfa(db, "bob1")) == n, "a credential created as disabled is not listed")
	} else {
		v.Assert(at.IsZero(), "an enabled credential has no time of disabling")
		v.Assert(len(listPub(db, "bob1", "ssh"))+len(listKeys(db, "bob1", "api"))+len(listMfa(db, "bob1")) == 4-b2i(m.r.Key.Usage == "gpg"), "an enabled credential is listed")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C32_later: disabled credentials after other operations.
func C32_later() {
	v.Bound("a user with a disabled and an enabled credential of each kind, disabled through the API's types or stored so, then up to two (thorough: three) operations of the API by the user, reopened or not")
	p := v.TempPath("db.json")
	bob := richUser(0, "Bob1", "bob1@x.io", "B@y.com")
	k := apiText(0, 1)
	lost := "Lost-secret"
	off := mkPassword(v.Hash(lost))
	api := &identity.APIKey{ID: "off", Prefix: k[:24], Usage: "api", Comment: "off", Payload: v.Hash(k), CreatedAt: t0}
	pub := &identity.PublicKey{ID: "off", Usage: "ssh", Type: "ssh-rsa", Fingerprint: "foff", Comment: "off", Payload: "poff", OpenSSH: "ooff", CreatedAt: t0}
	mfa := &identity.MfaToken{ID: "off", Type: "totp", Algorithm: "sha1", Comment: "off", Secret: "lost secret", Period: 60, Digits: 6, CreatedAt: t0}
	bob.Passwords = append(bob.Passwords, off)
	bob.APIKeys, bob.PublicKeys, bob.MfaTokens = append(bob.APIKeys, api), append(bob.PublicKeys, pub), append(bob.MfaTokens, mfa)
	mk := func() {
		off.Disable()
		api.Disable()
		pub.Disable()
		mfa.Disable()
	}
	var db *identity.Database
	if v.Choose("when", 2) == 0 {
		mk()
		db = mkDB(p, bob, richUser(1, "alice", "alice@x.io"))
	} else {
		db = mkDB(p, bob, richUser(1, "alice", "alice@x.io"))
		b := db.Users[0]
		off, api, pub, mfa = b.Passwords[2], b.APIKeys[2], b.PublicKeys[2], b.MfaTokens[2]
		mk()
		v.Assume(db.Save() == nil)
	}
	n := 2
	if v.Thorough() {
		n = 3
	}
	pw := oldPw
	for i := 0; i < n; i++ {
		switch o := v.Choose("op", mutCount+3); {
		case o == 6:
			r := req("bob1", "bob1@x.io")
			r.User.OldPassword, r.User.Password = pw, nextPw+string(rune('0'+i))
			v.Assert(db.ChangeUserPassword(r) == nil, "the password can be changed")
			pw = r.User.Password
		case o < mutCount:
			mkMut(o, string(rune('0'+i)), nil).run(db)
		case o == mutCount:
			db = reopen(p)
		case o == mutCount+1:
			r := req("bob1", "bob1@x.io")
			r.User.OldPassword, r.User.Password = lost, "Newer-secret"
			v.Assert(db.ChangeUserPassword(r) != nil, "a disabled password changes no password")
		case o == mutCount+2:
			v.Assert(v.Not(auth(db, "bob1", lost)), "a disabled password does not authenticate")
			r := requests.NewRequest()
			r.Key.Payload = k
			v.Assert(db.LookupAPIKey(r) != nil, "a disabled API key is not found")
		}
	}
	v.Assert(v.Not(auth(db, "bob1", lost)), "a disabled password does not authenticate")
	v.Assert(auth(db, "bob1", pw), "the current password authenticates")
	r := requests.NewRequest()
	r.Key.Payload = k
	v.Assert(db.LookupAPIKey(r) != nil, "a disabled API key is not found")
	for _, x := range listPub(db, "bob1", "ssh") {
		v.Assert(v.And(x.ID != "off", v.Not(x.Disabled)), "a disabled public key is not listed")
	}
	for _, x := range listKeys(db, "bob1", "api") {
		v.Assert(v.And(x.ID != "off", v.Not(x.Disabled)), "a disabled API key is not listed")
	}
	for _, x := range listMfa(db, "bob1") {
		v.Assert(v.And(x.ID != "off", v.Not(x.Disabled)), "a disabled MFA token is not listed")
	}
	b := db.Users[0]
	for _, x := range b.Passwords {
		if x.Hash == off.Hash {
			v.Assert(v.And(x.Disabled, x.Expired, x.DisabledAt.Equal(off.DisabledAt), x.ExpiredAt.Equal(off.ExpiredAt)), "a disabled password stays marked")
		}
	}
	for _, x := range b.APIKeys {
		if x.ID == "off" {
			v.Assert(v.And(x.Disabled, x.Expired, x.DisabledAt.Equal(api.DisabledAt)), "a disabled API key stays marked")
		}
	}
	for _, x := range b.PublicKeys {
		if x.ID == "off" {
			v.Assert(v.And(x.Disabled, x.Expired, x.DisabledAt.Equal(pub.DisabledAt)), "a disabled public key stays marked")
		}
	}
	for _, x := range b.MfaTokens {
		if x.ID == "off" {
			v.Assert(v.And(x.Disabled, x.Expired, x.DisabledAt.Equal(mfa.DisabledAt)), "a disabled MFA token stays marked")
		}
	}
}
