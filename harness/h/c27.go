package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// claim is how a name is rendered.
func claim(first, last string) string {
	if first == "" {
		return last
	}
	return last + ", " + first
}

// tokens stores up to n tokens of every type, disabled or not, and returns
// whether one, an app one and a universal one are enabled.
func tokens(u *identity.User, n int) (bool, bool, bool) {
	u.MfaTokens = nil
	any, app, key := false, false, false
	for i := 0; i < n; i++ {
		t := &identity.MfaToken{ID: "tok" + string(rune('0'+i)), Type: v.Pick("type"+string(rune('0'+i)), "totp", "u2f"), Comment: "c" + string(rune('0'+i)), Secret: "secret" + string(rune('0'+i)), CreatedAt: t0}
		t.Disabled = v.Bool("disabled" + string(rune('0'+i)))
		on := v.Not(t.Disabled)
		any = v.Or(any, on)
		if t.Type == "totp" {
			app = v.Or(app, on)
		} else {
			key = v.Or(key, on)
		}
		u.MfaTokens = append(u.MfaTokens, t)
	}
	return any, app, key
}

// C27_identify: the claims of a stored user.
func C27_identify() {
	v.Bound("two users; up to three (thorough: four) tokens of every type, disabled or not (up to two of them expired or not); identified by username or any e-mail in any case; requests pre-filled with any values")
	p := v.TempPath("db.json")
	u := richUser(0, "Bob1", "bob1@x.io", "B@y.com")
	most := 3
	if v.Thorough() {
		most = 4
	}
	any, app, key := tokens(u, v.Choose("tokens", most+1))
	db := mkDB(p, u, richUser(1, "alice", "alice@x.io"))
	file := v.SnapFile(p)
	if l := db.Users[0].MfaTokens; len(l) < 3 {
		e := v.Bool("expired")
		for _, t := range l {
			t.Expired = e
		}
	}
	before := v.Full(db)
	n := v.Str("name", "print", 4, 7, 9)
	v.Assume(v.Or(fold(n, "bob1"), fold(n, "bob1@x.io"), fold(n, "b@y.com")))
	r := req(n, "")
	prefill(r)
	want := r.Flags.Enabled
	v.Assert(db.IdentifyUser(r) == nil, "a user is identified")
	v.Assert(v.And(r.User.Username == "Bob1", r.User.Email == "bob1@x.io"), "the user's name and primary e-mail are reported")
	v.Assert(r.User.FullName == "Bob1, First", "the user's full name is reported")
	v.Assert(len(r.User.Roles) == 1 && r.User.Roles[0] == "user-Bob1", "the user's roles are reported")
	c := r.User.Challenges
	v.Assert(len(c) > 0 && c[0] == "password", "a password is asked for first")
	v.Assert(v.And(v.Implies(any, len(c) == 2 && c[1] == "mfa"), v.Implies(v.Not(any), len(c) == 1)), "MFA is asked for exactly when a token is enabled")
	v.Assert(v.Implies(want, v.And(v.Iff(r.Flags.MfaConfigured, any), v.Iff(r.Flags.MfaApp, app), v.Iff(r.Flags.MfaUniversal, key))), "the flags tell the kinds of enabled tokens")
	v.Assert(v.And(r.Flags.Enabled == want, r.Response.Code == 200), "the request is answered")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "identification changes nothing")
}

// C27_claims: any stored names, addresses and roles.
func C27_claims() {
	v.Bound("a user with any first and last name of 0-3, roles of 0-2 and organizations of 0-2 printable bytes, up to three e-mail addresses and roles; another user with other claims")
	p := v.TempPath("db.json")
	u := mkUser(0, "bob1", v.Hash(oldPw))
	mails := v.Choose("mails", 4)
	for i := 0; i < mails; i++ {
		u.EmailAddresses = append(u.EmailAddresses, mkMail(v.Str("mail"+string(rune('0'+i)), "lower", 1)+string(rune('0'+i))+"@x.io"))
	}
	full := ""
	if v.Choose("name", 2) == 1 {
		u.Name = &identity.Name{First: v.Str("first", "print", 0, 3), Last: v.Str("last", "print", 0, 3)}
		u.Names = []*identity.Name{u.Name, {First: "Other", Last: "Name"}}
		full = claim(u.Name.First, u.Name.Last)
	}
	var roles []string
	for i := v.Choose("roles", 3); i > 0; i-- {
		o := &identity.Role{Name: v.Str("role"+string(rune('0'+i)), "print", 1, 2), Organization: v.Str("org"+string(rune('0'+i)), "print", 0, 2)}
		u.Roles = append(u.Roles, o)
		s := o.Name
		if o.Organization != "" {
			s = o.Organization + "/" + o.Name
		} else if index(o.Name, '/') >= 0 {
			v.Assume(false)
		}
		roles = append(roles, s)
	}
	a := richUser(1, "alice", "alice@x.io")
	db := mkDB(p, a, u)
	r := req("bob1", "")
	prefill(r)
	v.Assert(db.IdentifyUser(r) == nil, "a user is identified")
	mail := ""
	if mails > 0 {
		mail = u.EmailAddresses[0].Address
	}
	v.Assert(v.And(r.User.Username == "bob1", r.User.Email == mail), "the user's name and primary e-mail are reported")
	v.Assert(r.User.FullName == full, "the user's full name is reported")
	ok := len(r.User.Roles) == len(roles)
	for i := range roles {
		ok = v.And(ok, i < len(r.User.Roles) && r.User.Roles[i] == roles[i])
	}
	v.Assert(ok, "the user's roles are reported")
	v.Assert(len(r.User.Challenges) == 1 && r.User.Challenges[0] == "password", "only a password is asked for")
}

// C27_added: users and tokens added by the API.
func C27_added() {
	v.Bound("users added with a full name and roles from a catalogue; a token of any kind added, disabled or not, and deleted again")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	q := newUser("zoe", goodPw, "Zoe@x.io")
	name := v.Choose("name", 3)
	q.User.FullName = []string{"", "Doe, Zoe", "Zoe Doe"}[name]
	if v.Choose("roles", 2) == 1 {
		q.User.Roles = []string{"admin", "org/ops"}
	}
	v.Assume(db.AddUser(q) == nil)
	flags := func(on, app, key bool, what string) {
		r := req(v.Pick("as", "zoe", "ZOE@x.io"), "")
		r.Flags.Enabled = true
		r.Flags.MfaApp, r.Flags.MfaUniversal = true, true
		v.Assert(db.IdentifyUser(r) == nil, "an added user is identified")
		v.Assert(v.And(v.Iff(r.Flags.MfaConfigured, on), v.Iff(r.Flags.MfaApp, app), v.Iff(r.Flags.MfaUniversal, key)), what)
		n := 1
		if on {
			n = 2
		}
		v.Assert(len(r.User.Challenges) == n, what)
		v.Assert(v.And(r.User.Username == "zoe", fold(r.User.Email, "zoe@x.io"), r.User.FullName == []string{"", "Doe, Zoe", "Doe, Zoe"}[name], len(r.User.Roles) == len(q.User.Roles)), "the claims of an added user are reported")
		for i := range q.User.Roles {
			v.Assert(i < len(r.User.Roles) && r.User.Roles[i] == q.User.Roles[i], "the roles of an added user are reported")
		}
	}
	flags(false, false, false, "no token, no flags")
	m := mkMut(4, "0", fixText)
	m.r.User.Username, m.r.User.Email = "zoe", "zoe@x.io"
	v.Assume(m.run(db) == nil)
	on := v.Not(m.r.MfaToken.Disabled)
	if on {
		flags(true, m.r.MfaToken.Type == "totp", m.r.MfaToken.Type == "u2f", "the flags tell about the added token")
	} else {
		flags(false, false, false, "a disabled token sets no flags")
	}
	if v.Choose("reopen", 2) == 1 {
		db = reopen(p)
	}
	l := getUser(db, "zoe", "zoe@x.io").MfaTokens
	d := req("zoe", "zoe@x.io")
	d.MfaToken.ID = l[0].ID
	v.Assume(db.DeleteMfaToken(d) == nil)
	flags(false, false, false, "a deleted token sets no flags")
	r := req("bob1", "")
	r.Flags.Enabled = true
	v.Assert(db.IdentifyUser(r) == nil && r.Flags.MfaApp && len(r.User.Challenges) == 2, "other users keep their flags")
}
