package h

import (
	"path/filepath"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// odd are bytes which nothing but the secrets of these harnesses has.
const odd = "~^`|"

// secret is any password: of odd bytes only, or of any bytes between two.
func secret(name string, lens ...int) string {
	if v.Choose(name+"-kind", 2) == 0 {
		return v.Str(name, "set:"+odd, lens...)
	}
	in := []int{}
	for _, n := range lens {
		in = append(in, n-2)
	}
	return "~" + v.Str(name, "print", in...) + "^"
}

// clear checks that nothing of a secret shows up in a text.
func clear(t, what string) {
	for i := range odd {
		v.Assert(index(t, odd[i]) < 0, "no secret in "+what)
	}
}

// sealed checks that nothing of a secret is in the records or on the disk.
func sealed(db *identity.Database, p string) {
	s := v.Snap(db)
	for i := range odd {
		v.Assert(!v.Has(s, odd[i:i+1]), "no secret in the records")
		v.Assert(!v.FileContains(filepath.Dir(p), odd[i:i+1]), "no secret in the files")
	}
}

// C18_passwords: passwords which are set, refused or replaced.
func C18_passwords() {
	v.Bound("any two passwords of 7 and 9 (thorough: 2-12) bytes of a reserved set, or of any printable bytes between two of these; users added and passwords changed in any combination, accepted or refused for any reason, with or without a file-system fault; compared: every text of the records, of all files of the directory, of error messages and of listings")
	lens := []int{7, 9}
	if v.Thorough() {
		lens = []int{2, 7, 8, 9, 12}
	}
	p := v.TempPath("db.json")
	db := twoUsers(p)
	pp := &db.Policy.Password
	pp.RequireUppercase, pp.RequireNumber = v.Bool("upper"), v.Bool("number")
	fault := v.Bool("fault")
	if fault {
		v.FaultFS(1, false)
	}
	s := secret("first", lens...)
	k := v.Choose("op", 3)
	name := "bob1"
	cur := oldPw
	if k == 0 {
		name = v.Pick("name", "zoe", "bob1", "x")
		r := newUser(name, s, v.Pick("mail", "zoe@x.io", "alice@x.io", "junk"))
		if v.Bool("role") {
			r.User.Roles = []string{""}
		}
		err := db.AddUser(r)
		clear(errText(err), "an error")
		if err != nil {
			v.Cover("user refused")
			sealed(db, p)
			return
		}
		v.Cover("user added")
		cur = s
	} else {
		r := req(name, "bob1@x.io")
		r.User.OldPassword, r.User.Password = oldPw, s
		if k == 2 {
			r.User.OldPassword = secret("wrong", 8)
		}
		err := db.ChangeUserPassword(r)
		clear(errText(err), "an error")
		if err == nil {
			v.Cover("changed")
			cur = s
		}
	}
	v.FaultOff()
	sealed(db, p)
	if !fault {
		r := req(name, name+"@x.io")
		r.User.OldPassword, r.User.Password = cur, secret("second", 9)
		if err := db.ChangeUserPassword(r); err != nil {
			clear(errText(err), "an error")
		} else {
			v.Cover("changed twice")
		}
		sealed(db, p)
	}
	v.Assert(db.Copy(filepath.Dir(p)+"/copy.json") == nil, "copied")
	sealed(reopen(p), p)
	for _, o := range ops[7:12] {
		r := req(name, name+"@x.io")
		o.prep(r)
		clear(errText(o.run(db, r)), "an error")
		for i := range odd {
			v.Assert(!v.Has(v.Snap(payload(r)), odd[i:i+1]), "no secret in a listing")
		}
	}
}

// blank removes what two runs differ in by nature.
func blank(db *identity.Database) interface{} {
	d := reopen(db.GetPath())
	z := time.Time{}
	d.LastModified = z
	for _, u := range d.Users {
		u.ID, u.Created, u.LastModified = "", z, z
		for _, k := range u.APIKeys {
			k.Payload = ""
		}
		for _, w := range u.Passwords {
			w.Hash, w.CreatedAt, w.DisabledAt, w.ExpiredAt = "", z, z, z
		}
	}
	return v.Snap(d)
}

// C18_blind: apart from the hashes, the records do not depend on the password.
func C18_blind() {
	v.Bound("any two passwords of the same length of 8 or 11 printable bytes, as the password of an added user or a new password; everything stored but hashes, IDs and times compared")
	n := []int{8, 11}[v.Choose("len", 2)]
	a, b := v.Str("a", "print", n), v.Str("b", "print", n)
	v.Assume(v.And(trim(a) == a, trim(b) == b))
	add := v.Bool("add")
	run := func(pw string) (*identity.Database, string) {
		db := twoUsers(v.TempPath("db.json"))
		r := newUser("zoe", pw, "zoe@x.io")
		if add {
			return db, errText(db.AddUser(r))
		}
		r = req("bob1", "bob1@x.io")
		r.User.OldPassword, r.User.Password = oldPw, pw
		return db, errText(db.ChangeUserPassword(r))
	}
	d, e := run(a)
	f, g := run(b)
	v.Assert(e == g, "the outcome does not depend on the password")
	v.Assert(v.Same(blank(d), blank(f)), "but for the hash, nothing stored depends on the password")
	if e == "" {
		u, w := d.Users[0], f.Users[0]
		if add {
			u, w = d.Users[2], f.Users[2]
		}
		v.Assert(len(u.Passwords[0].Hash) == 60 && len(w.Passwords[0].Hash) == 60, "a bcrypt hash is stored")
		v.Cover("stored")
	}
}

// C18_auth: presented passwords, keys and assertions.
func C18_auth() {
	v.Bound("any presented password of 1, 8 and 73, API key of 1, 24 and 73, old password of 8 bytes of the same kinds, for a known user or an unknown one")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	switch v.Choose("what", 5) {
	case 0:
		r := requests.NewRequest()
		r.User.Username, r.User.OldPassword = v.Pick("name", "bob1", "ghost", "bob1@x.io", ""), secret("old", 8)
		switch v.Choose("with", 3) {
		case 0:
			r.User.Password = secret("pw", 2, 8, 73)
		case 1:
			r.WebAuthn.Request = v.Pick("webauthn", "e30=", "?")
			r.Key.Payload = secret("key", 8)
		case 2:
			r.Key.Payload = secret("key", 8)
		}
		clear(errText(db.AuthenticateUser(r)), "an error")
	case 1:
		r := requests.NewRequest()
		r.Key.Payload = secret("key", 2, 24, 73)
		if v.Bool("near") {
			r.Key.Payload = apiText(0, 0)[:24] + r.Key.Payload
		}
		err := db.LookupAPIKey(r)
		v.Assert(err != nil, "refused")
		clear(errText(err), "an error")
		t := errText(err)
		for i := 0; i+8 <= len(t); i++ {
			v.Assert(t[i:i+8] != apiText(0, 0)[:8], "no key in an error")
		}
	case 2:
		r := req(v.Pick("name", "bob1", "ghost"), v.Pick("mail", "bob1@x.io", "alice@x.io"))
		r.User.OldPassword, r.User.Password = secret("old", 8), secret("new", 2, 8)
		clear(errText(db.ChangeUserPassword(r)), "an error")
	case 3:
		u := db.Users[0]
		err := u.VerifyPassword(secret("pw", 2, 8))
		clear(errText(err), "an error")
		_, err = identity.NewPassword(secret("new", 2, 73))
		clear(errText(err), "an error")
	case 4:
		// the other operations, given a password nobody asked for
		o := ops[v.Choose("op", len(ops))]
		r := req(v.Pick("name", "bob1", "ghost"), v.Pick("mail", "bob1@x.io", "alice@x.io"))
		o.prep(r)
		if o.name != "ChangeUserPassword" {
			r.User.Password, r.User.OldPassword = secret("pw", 8), secret("old", 8)
		}
		clear(errText(o.run(db, r)), "an error")
	}
	sealed(db, p)
}

// C18_keys: issued API keys.
func C18_keys() {
	v.Bound("every issued key of 72-96 characters (the first 24 of which are the public prefix), every 8 consecutive others of one; the issue failing or not, the key used, deleted or kept, the database copied and reopened")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	r := req("bob1", "bob1@x.io")
	r.Key.Usage, r.Key.Comment = "api", "job"
	fault := v.Bool("fault")
	if fault {
		v.FaultFS(1, false)
	}
	err := db.AddAPIKey(r)
	v.FaultOff()
	if err != nil {
		v.Cover("refused")
		t, ok := r.Response.Payload.(string)
		v.Assert(!ok || v.Not(v.FileContains(filepath.Dir(p), t[24:])), "no key in the files")
		return
	}
	s := r.Response.Payload.(string)
	switch v.Choose("then", 3) {
	case 0:
		q := requests.NewRequest()
		q.Key.Payload = s
		v.Assert(db.LookupAPIKey(q) == nil, "found")
		v.Cover("used")
	case 1:
		q := requests.NewRequest()
		q.Key.Payload = s[:30] + "-" + s[31:]
		err := db.LookupAPIKey(q)
		v.Assert(err != nil && v.Not(v.Has(v.Snap(errText(err)), s[:24])), "no key in an error")
	case 2:
		q := req("bob1", "bob1@x.io")
		q.Key.ID = db.Users[0].APIKeys[2].ID
		v.Assert(db.DeleteAPIKey(q) == nil, "deleted")
	}
	v.Assert(db.Copy(filepath.Dir(p)+"/copy.json") == nil, "copied")
	for _, t := range []string{s, s[:48], s[24:]} {
		v.Assert(v.Not(v.Has(v.Snap(db), t)), "no key in the records")
		v.Assert(v.Not(v.FileContains(filepath.Dir(p), t)), "no key in the files")
	}
	for _, o := range ops[7:12] {
		q := req("bob1", "bob1@x.io")
		o.prep(q)
		v.Assert(o.run(db, q) == nil, "listed")
		v.Assert(v.Not(v.Has(v.Snap(payload(q)), s[24:])), "no key in a listing")
	}
}

// C18_listing: what user listings tell.
func C18_listing() {
	v.Bound("two users whose every credential field has any 3 reserved bytes; the metadata listing, and errors of opening a file with an invalid or duplicate record")
	p := v.TempPath("db.json")
	a, b := richUser(0, "bob1", "bob1@x.io"), richUser(1, "alice", "alice@x.io")
	x := v.Str("secret", "set:"+odd, 3)
	for _, u := range []*identity.User{a, b} {
		u.Passwords[0].Hash = x
		u.APIKeys[0].Payload = x
		u.APIKeys[0].Comment = x
		u.PublicKeys[0].Payload, u.PublicKeys[0].OpenSSH = x, x
		u.MfaTokens[0].Secret = x
		u.MfaTokens[0].Parameters = map[string]string{"key": x}
	}
	k := v.Choose("what", 6)
	switch k {
	case 1:
		b.Username = ""
	case 2:
		b.Username = "BOB1"
	case 3:
		b.ID = a.ID
	case 4:
		b.EmailAddresses[0].Address = "BOB1@x.io"
	case 5:
		b.APIKeys[0].Prefix = a.APIKeys[0].Prefix
	}
	v.WriteJSON(p, &identity.Database{Policy: identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128}},
		Revision: 7, LastModified: t0, Users: []*identity.User{a, b}})
	db, err := identity.NewDatabase(p)
	v.Assert((err == nil) == (k == 0), "opened exactly when valid")
	if err != nil {
		v.Cover("refused")
		clear(err.Error(), "an error")
		return
	}
	r := req("bob1", "bob1@x.io")
	v.Assert(db.GetUsers(r) == nil, "listed")
	list := v.Snap(payload(r))
	v.Assert(v.Has(list, "bob1") && v.Has(list, "alice"), "users are listed")
	for i := range odd {
		v.Assert(!v.Has(list, odd[i:i+1]), "no credential in a user listing")
	}
	r = requests.NewRequest()
	r.User.Username, r.Flags.Enabled = "bob1", true
	v.Assert(db.IdentifyUser(r) == nil, "identified")
	v.Assert(v.Not(v.Has(v.Snap(r), "~")), "no credential when identified")
}
