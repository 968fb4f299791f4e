package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// mut is one mutating operation with arguments of its own.
type mut struct {
	name string
	user int // the user who changes, -1 for none, 2 for an added one
	run  func(db *identity.Database) error
	r    *requests.Request
}

const mutCount = 9

// ownText is a short text for a comment or name, chosen per harness.
type ownText func(name string) string

func symText(name string) string { return v.Str(name, "print", 1, 3) }

func fixText(name string) string { return "text-" + name }

// mkMut makes the k-th kind of operation on the first user of twoUsers; with
// no text it is always the same one.
func mkMut(k int, tag string, text ownText) mut {
	r := req("bob1", "bob1@x.io")
	m := mut{r: r}
	if k < 7 {
		o := ops[k]
		o.prep(r)
		m.name = o.name
		m.run = func(db *identity.Database) error { return o.run(db, r) }
		if text == nil {
			return m
		}
		switch o.name {
		case "AddPublicKey":
			r.Key.Comment = text("comment" + tag)
			r.Key.Disabled = v.Bool("disabled" + tag)
			switch v.Choose("key"+tag, 3) {
			case 1:
				r.Key.Usage, r.Key.Payload = "gpg", pgpKeys[0]
			case 2:
				r.Key.Usage, r.Key.Payload = "gpg", pgpLatin
			}
		case "AddAPIKey":
			r.Key.Comment = text("comment" + tag)
			v.Assume(len(trim(r.Key.Comment)) > 0)
			r.Key.Disabled = v.Bool("disabled" + tag)
		case "AddMfaToken":
			r.MfaToken.Comment = text("comment" + tag)
			r.MfaToken.Disabled = v.Bool("disabled" + tag)
			if v.Choose("kind"+tag, 2) == 1 {
				r.MfaToken.Type, r.MfaToken.Secret, r.MfaToken.Passcode = "u2f", "", ""
				r.WebAuthn.Register, r.WebAuthn.Challenge = b64(regDoc(nil)), "challenge"+tag
			}
		}
		return m
	}
	switch k {
	case 7:
		m.name, m.user = "AddUser", 2
		r.User.Username, r.User.Password, r.User.Email = "zoe"+tag, goodPw, "zoe"+tag+"@x.io"
		m.run = func(db *identity.Database) error { return db.AddUser(r) }
		if text == nil {
			break
		}
		r.User.FullName = v.Pick("fullname"+tag, "", "Zoe Doe", "Doe, Zoe")
		switch v.Choose("role"+tag, 3) {
		case 1:
			r.User.Roles = []string{"admin", "x/y"}
		case 2:
			t := text("role")
			v.Assume(t != "")
			r.User.Roles = []string{"/" + t}
		}
	case 8:
		m.name, m.user = "Save", -1
		m.run = func(db *identity.Database) error { return db.Save() }
	}
	return m
}

// alike compares a live database with the one read back from its file.
func alike(p string, db *identity.Database) {
	live := v.Snap(db)
	v.Assert(v.Same(live, v.SnapFile(p)), "the file holds the live database")
	d := reopen(p)
	v.Assert(v.Same(v.Full(db), v.Full(d)), "the reopened database equals the live one")
	v.Assert(v.Same(live, v.SnapFile(p)), "opening does not alter the file")
	v.Assert(v.And(d.GetUserCount() == db.GetUserCount(), d.GetPath() == db.GetPath()), "count and path agree")
	for i, u := range db.Users {
		w := d.Users[i]
		m := v.And(w.Username == u.Username, len(w.EmailAddresses) == len(u.EmailAddresses), len(w.Roles) == len(u.Roles), len(w.MfaTokens) == len(u.MfaTokens), w.GetMailClaim() == u.GetMailClaim(), w.GetNameClaim() == u.GetNameClaim())
		v.Assert(m, "claims agree")
		for k := range u.MfaTokens {
			v.Assert(v.And(w.MfaTokens[k].Secret == u.MfaTokens[k].Secret, w.MfaTokens[k].Comment == u.MfaTokens[k].Comment), "token texts agree")
		}
		for k := range u.APIKeys {
			v.Assert(w.APIKeys[k].Comment == u.APIKeys[k].Comment, "key texts agree")
		}
		for k := range u.Roles {
			v.Assert(w.Roles[k].String() == u.Roles[k].String(), "roles agree")
		}
	}
}

// answers compares what two databases answer.
func answers(db, d *identity.Database, names []string, pws []string, keys []string) {
	for _, n := range names {
		for _, pw := range pws {
			v.Assert(v.Iff(auth(db, n, pw), auth(d, n, pw)), "authentication agrees")
		}
		a, b := requests.NewRequest(), requests.NewRequest()
		a.User.Username, b.User.Username = n, n
		a.Flags.Enabled, b.Flags.Enabled = true, true
		e1, e2 := db.IdentifyUser(a), d.IdentifyUser(b)
		v.Assert((e1 == nil) == (e2 == nil), "identification agrees")
		v.Assert(v.Same(v.Snap(a), v.Snap(b)), "identification agrees")
		for _, o := range ops[7:12] {
			a, b := req(n, n+"@x.io"), req(n, n+"@x.io")
			o.prep(a)
			o.prep(b)
			e1, e2 := o.run(db, a), o.run(d, b)
			v.Assert(errText(e1) == errText(e2), o.name+" agrees")
			v.Assert(v.Same(v.Full(payload(a)), v.Full(payload(b))), o.name+" agrees")
		}
	}
	for _, k := range keys {
		a, b := requests.NewRequest(), requests.NewRequest()
		a.Key.Payload, b.Key.Payload = k, k
		e1, e2 := db.LookupAPIKey(a), d.LookupAPIKey(b)
		v.Assert((e1 == nil) == (e2 == nil), "lookups agree")
		v.Assert(v.And(a.User.Username == b.User.Username, a.User.Email == b.User.Email), "lookups agree")
	}
}

// payload is the records a listing returned.
func payload(r *requests.Request) interface{} {
	switch b := r.Response.Payload.(type) {
	case *identity.PublicKeyBundle:
		return b.Get()
	case *identity.APIKeyBundle:
		return b.Get()
	case *identity.MfaTokenBundle:
		return b.Get()
	case *identity.UserMetadataBundle:
		return b.Get()
	case *identity.User:
		return b
	}
	return nil
}

// C13_ops: each operation, then reopened.
func C13_ops() {
	v.Bound("every mutating operation with symbolic comments and roles of 1 and 3 printable bytes, disabled flags and token kinds on two users holding every kind of credential; every read operation, authentication and lookup compared afterwards")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m := mkMut(v.Choose("op", mutCount), "0", symText)
	err := m.run(db)
	if err != nil {
		return
	}
	v.Cover(m.name)
	alike(p, db)
	keys := []string{apiText(0, 0), apiText(1, 0)}
	if k, ok := m.r.Response.Payload.(string); ok {
		keys = append(keys, k)
	}
	answers(db, reopen(p), []string{"bob1", "alice", "zoe0"}, []string{oldPw, nextPw, goodPw}, keys)
}

// C13_sequence: several operations in a row.
func C13_sequence() {
	v.Bound("every sequence of two (thorough: three) mutating operations on two users, each acknowledged state compared with the file")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	n := 2
	if v.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		m := mkMut(v.Choose("op", mutCount), string(rune('0'+i)), fixText)
		if m.run(db) == nil {
			alike(p, db)
			if i > 0 && v.Choose("reopen", 2) == 1 {
				db = reopen(p)
			}
		}
	}
	answers(db, reopen(p), []string{"bob1", "zoe1"}, []string{oldPw, nextPw}, []string{apiText(0, 0)})
}

// C13_names: every user name, address and full name survives.
func C13_names() {
	v.Bound("added users with any name of 3-5 printable bytes or from a catalogue of non-ASCII and non-UTF-8 texts, e-mail local parts of 1-2 alphanumerics, comments likewise")
	p := v.TempPath("db.json")
	db := mkDB(p, mkUser(0, "bob", v.Hash(oldPw), "bob@x.io"))
	odd := []string{"\u00e9ve", "<a&b>", "a\"b\\c", "\u2028x\u2029", "\U0001F600\U0001F600", "a\x00b", "\xff\xfe\xfd", "ok\xc3", "\ufffd\ufffd\ufffd"}
	name, full, email, comment, role := "zoe", "Zoe Doe", "zoe@x.io", "laptop", "admin"
	secret := "a-secret"
	any := func() string {
		if k := v.Choose("odd", len(odd)+1); k < len(odd) {
			secret = odd[k]
			return odd[k]
		}
		return v.Str("text", "print", 3, 5)
	}
	switch v.Choose("what", 6) {
	case 0:
		name = any()
	case 1:
		full = any()
	case 2:
		email = v.Str("local", "alnum", 1, 2) + "@x.io"
	case 3:
		comment = any()
	case 4:
		role = any()
	case 5:
		email = any() + "@x.io"
	}
	r := newUser(name, goodPw, email)
	r.User.FullName, r.User.Roles = full, []string{role}
	if db.AddUser(r) != nil {
		v.Cover("refused")
		return
	}
	v.Cover("added")
	alike(p, db)
	d := reopen(p)
	v.Assert(v.And(auth(db, name, goodPw), auth(d, name, goodPw)), "the added user authenticates before and after")
	r = req("bob", "bob@x.io")
	r.Key.Comment, r.Key.Usage = comment, "api"
	if db.AddAPIKey(r) == nil {
		alike(p, db)
	}
	r = req("bob", "bob@x.io")
	r.MfaToken.Type, r.MfaToken.Secret, r.MfaToken.Comment, r.MfaToken.Period = "totp", secret, comment, 300
	r.MfaToken.Passcode = enrolCode(secret, "sha1", 6, 300)
	if db.AddMfaToken(r) == nil {
		alike(p, db)
	}
}

// C13_open: opening a file without changing it.
func C13_open() {
	v.Bound("policies with any subset of the limits unset and any other limit values of 1-1000, revisions of any size, users with every credential")
	p := v.TempPath("db.json")
	d := &identity.Database{Version: "1.1.6", Revision: v.Uint64("revision"), LastModified: t0, Users: []*identity.User{richUser(0, "bob1", "bob1@x.io"), richUser(1, "alice", "alice@x.io")}}
	lim := func(name string) int {
		if v.Choose(name+"?", 2) == 0 {
			return 0
		}
		return v.Int(name, 1, 1000)
	}
	up, pp := &d.Policy.User, &d.Policy.Password
	up.MinLength, up.MaxLength, pp.MinLength, pp.MaxLength, pp.KeepVersions = lim("umin"), lim("umax"), lim("pmin"), lim("pmax"), lim("keep")
	pp.RequireNumber, up.AllowUppercase, pp.BlockReuse = v.Bool("number"), v.Bool("upper"), v.Bool("reuse")
	v.WriteJSON(p, d)
	before := v.SnapFile(p)
	full := up.MinLength != 0 && up.MaxLength != 0 && pp.MinLength != 0 && pp.MaxLength != 0 && pp.KeepVersions != 0
	db := reopen(p)
	if full {
		v.Assert(v.Same(before, v.SnapFile(p)), "opening leaves a complete file")
		v.Cover("complete")
	}
	dflt := func(a, b int) int {
		if a == 0 {
			return b
		}
		return a
	}
	e := db.Policy
	v.Assert(v.And(e.User.MinLength == dflt(up.MinLength, 3), e.User.MaxLength == dflt(up.MaxLength, 50), e.Password.MinLength == dflt(pp.MinLength, 8), e.Password.MaxLength == dflt(pp.MaxLength, 128), e.Password.KeepVersions == dflt(pp.KeepVersions, 10),
		v.Iff(e.Password.RequireNumber, pp.RequireNumber), v.Iff(e.User.AllowUppercase, up.AllowUppercase), v.Iff(e.Password.BlockReuse, pp.BlockReuse)), "only unset limits are filled in")
	v.Assert(v.Same(v.Snap(d.Users), v.Snap(db.Users)), "users are read as stored")
	alike(p, db)
	again := v.SnapFile(p)
	reopen(p)
	v.Assert(v.Same(again, v.SnapFile(p)), "the next opening changes nothing")
}

// C13_calls: every public operation on a database.
func C13_calls() {
	v.Bound("any one (thorough: two) of 27 operations (every public method of the database, and the generators), of the same user or of two, on two users with every credential; afterwards the file holds the live database")
	p := v.TempPath("db.json")
	doc := docs()
	db := raceDB(p)
	db.Save()
	n := 1
	if v.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		call(db, p, v.Choose("call", calls), v.Choose("user", 2), string(rune('a'+i)), doc)(i)
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the file holds the live database")
	}
	alike(p, db)
}
