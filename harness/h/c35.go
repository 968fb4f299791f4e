package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// pairDBs are two databases whose users have the same names and credential
// IDs but other secrets, tokens, names and roles.
func pairDBs(p, q string) (*identity.Database, *identity.Database) {
	a := twoUsers(p)
	var us []*identity.User
	for i, n := range []string{"Bob1", "alice"} {
		u := richUser(i, n, []string{"bob1", "alice"}[i]+"@x.io", nth("other", i)+"@y.com")
		u.ID = crowdID(i)
		u.Passwords = []*identity.Password{mkPassword(v.Hash(nth("Other-secret-", i)))}
		t := crowdKey(i, 0)
		u.APIKeys[0].Prefix, u.APIKeys[0].Payload = t[:24], v.Hash(t)
		u.APIKeys = u.APIKeys[:1]
		u.MfaTokens[0].Disabled = i == 0
		u.Roles = []*identity.Role{{Name: nth("other", i)}}
		u.Name = &identity.Name{First: "Other", Last: nth("L", i)}
		u.Names = []*identity.Name{u.Name}
		u.Revision = 40 + i
		us = append(us, u)
	}
	return a, mkDB(q, us...)
}

// anyOp does something with the database.
func anyOp(db *identity.Database, tag string) {
	r := req("bob1", "bob1@x.io")
	switch k := v.Choose("op"+tag, len(ops)+6); k - len(ops) {
	case 0:
		db.AddUser(newUser("zoe", goodPw, "zoe@x.io"))
	case 1:
		db.Save()
	case 2:
		db.Copy(v.TempPath("copy" + tag + ".json"))
	case 3:
		auth(db, "bob1", oldPw)
	case 4:
		lookup(db, apiText(0, 0))
	case 5:
		r.Flags.Enabled = true
		db.IdentifyUser(r)
	default:
		o := ops[k]
		o.prep(r)
		o.run(db, r)
	}
}

// C35_apart: what is done with one database leaves the other alone.
func C35_apart() {
	v.Bound("two databases with the same usernames; any operation (of 19) on one, then (thorough: any; quick: one of five) on the other")
	p, q := v.TempPath("a.json"), v.TempPath("b.json")
	a, b := pairDBs(p, q)
	before, file := v.Full(b), v.SnapFile(q)
	anyOp(a, "1")
	v.Assert(v.And(v.Same(before, v.Full(b)), v.Same(file, v.SnapFile(q))), "an operation on one database leaves the other")
	before, file = v.Full(a), v.SnapFile(p)
	if v.Thorough() {
		anyOp(b, "2")
	} else {
		r := req("bob1", "bob1@x.io")
		o := ops[[]int{0, 2, 3, 6, 7}[v.Choose("op2", 5)]]
		o.prep(r)
		r.User.OldPassword = "Other-secret-0"
		v.Assert(o.run(b, r) == nil, o.name+" on the other succeeds")
	}
	v.Assert(v.And(v.Same(before, v.Full(a)), v.Same(file, v.SnapFile(p))), "an operation on the other leaves the first")
	v.Assert(a.GetPath() == p && b.GetPath() == q, "each has its path")
}

// C35_answers: each database answers from its own records.
func C35_answers() {
	v.Bound("two databases with the same usernames; any read or write of one, up to two times, then every question asked of the other, by any presented name")
	a, b := pairDBs(v.TempPath("a.json"), v.TempPath("b.json"))
	for n := 1 + v.Choose("times", 2); n > 0; n-- {
		k := v.Choose("first", len(ops)+2)
		switch k - len(ops) {
		case 0:
			v.Assert(auth(a, "bob1", oldPw), "the first database authenticates its user")
		case 1:
			_, err := lookup(a, apiText(0, 0))
			v.Assert(err == nil, "the first database finds its key")
		default:
			r := req("bob1", "bob1@x.io")
			ops[k].prep(r)
			ops[k].run(a, r)
			n = 0
		}
	}
	i := v.Choose("user", 2)
	n := []string{"Bob1", "alice"}[i]
	v.Assert(!auth(b, n, oldPw) && auth(b, n, nth("Other-secret-", i)), "exactly its own passwords authenticate")
	_, err := lookup(b, apiText(i, 0))
	v.Assert(err != nil, "keys of another database are not found")
	r, err := lookup(b, crowdKey(i, 0))
	v.Assert(err == nil && r.User.Username == n, "its own keys are found")
	r = requests.NewRequest()
	r.User.Username, r.Flags.Enabled = n, true
	v.Assert(b.IdentifyUser(r) == nil && r.User.FullName == claim("Other", nth("L", i)) && len(r.User.Roles) == 1 && r.User.Roles[0] == nth("other", i), "its own claims are reported")
	v.Assert(r.Flags.MfaConfigured == (i == 1) && r.Flags.MfaApp == (i == 1), "its own flags are reported")
	l := list(b, n, nth("other", i)+"@y.com")
	v.Assert(len(l) == 2 && metaOf(l[0], b.Users[0]) && metaOf(l[1], b.Users[1]), "its own users are listed")
	v.Assert(getUser(b, n, nth("other", i)+"@y.com") == b.Users[i], "its own user is retrieved")
	v.Assert(getUser(b, "bob1", "B@y.com") == nil, "addresses of another database are unknown")
	for k := 9; k < 12; k++ {
		r := req(n, nth("other", i)+"@y.com")
		ops[k].prep(r)
		err := ops[k].run(b, r)
		if ops[k].name == "GetMfaTokens" && i == 0 {
			continue
		}
		v.Assert(err == nil && owned(ops[k], r, b.Users[i]), "its own credentials are listed")
	}
}

// C35_policy: each database has its own policy.
func C35_policy() {
	v.Bound("any policy limits of a first database, opened or changed afterwards; then a database is created and another opened")
	p := v.TempPath("a.json")
	pol := identity.Policy{User: identity.UserPolicy{MinLength: v.Int("umin", 1, 60), MaxLength: v.Int("umax", 1, 60)},
		Password: identity.PasswordPolicy{KeepVersions: v.Int("keep", 1, 60), MinLength: v.Int("pmin", 1, 60), MaxLength: v.Int("pmax", 1, 60), RequireNumber: true, BlockReuse: true}}
	var a *identity.Database
	if v.Choose("when", 2) == 0 {
		a = openWith(p, &identity.Database{Revision: 7, LastModified: t0, Users: []*identity.User{mkUser(0, "bob", v.Hash("pw"), "bob@x.io")}, Policy: pol})
	} else {
		a = mkDB(p, mkUser(0, "bob", v.Hash("pw"), "bob@x.io"))
		a.Policy = pol
	}
	a.GetUsernamePolicySummary()
	a.GetPasswordPolicyRegex()
	b, err := identity.NewDatabase(v.TempPath("new.json"))
	v.Assert(err == nil, "created")
	v.Assert(b.Policy == identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128}}, "a new database has the default policy")
	c := mkDB(v.TempPath("c.json"), mkUser(0, "bob", v.Hash("pw"), "bob@x.io"))
	v.Assert(c.Policy.User.MinLength == 3 && c.Policy.Password.MaxLength == 128, "another database has its own policy")
	v.Assert(v.And(a.Policy.User.MinLength == pol.User.MinLength, a.Policy.User.MaxLength == pol.User.MaxLength, a.Policy.Password.MinLength == pol.Password.MinLength), "the first keeps its own")
	v.Assert(b.AddUser(newUser("zoe", goodPw, "zoe@x.io")) == nil, "the default policy is enforced")
	v.Assert(b.AddUser(newUser("zo", goodPw, "zo@x.io")) != nil, "the default policy is enforced")
}

// C35_request: nothing of a request is held.
func C35_request() {
	v.Bound("every mutating operation of any arguments, after which everything the request holds is overwritten")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m := mkMut(v.Choose("op", mutCount), "0", fixText)
	m.r.User.Challenges, m.r.Upstream.CookieNames = []string{"c0"}, []string{"n0"}
	v.Assume(m.run(db) == nil)
	before, file := v.Full(db), v.SnapFile(p)
	scribble(m.r)
	v.Assert(v.Same(before, v.Full(db)), "changing the request changes no record")
	v.Assume(db.Save() == nil)
	db2 := reopen(p)
	db2.Revision, db2.LastModified = db.Revision, db.LastModified
	v.Assert(v.Same(v.Full(db2), v.Full(db)), "nor what is saved later")
	_ = file
}

func scribble(r *requests.Request) {
	for i := range r.User.Roles {
		r.User.Roles[i] = "root"
	}
	for i := range r.User.Challenges {
		r.User.Challenges[i] = "none"
	}
	for i := range r.Upstream.CookieNames {
		r.Upstream.CookieNames[i] = "none"
	}
	x := r.User.Roles
	*r = requests.Request{}
	r.User.Username, r.User.Email, r.User.Password = "root", "root@x.io", "root"
	r.User.Roles = append(x, "root")
	r.Key.ID, r.Key.Payload, r.Key.Prefix, r.Key.Comment = "root", "root", "root", "root"
	r.MfaToken.ID, r.MfaToken.Secret, r.MfaToken.Comment, r.MfaToken.Type = "root", "root", "root", "root"
}

// C35_lists: the lists in a response are the caller's own.
func C35_lists() {
	v.Bound("every listing, whose entries are overwritten, cut and extended; identification, whose roles and challenges are; asked again")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	before := v.Full(db)
	for n := 0; n < 2; n++ {
		r := req("bob1", "bob1@x.io")
		k := v.Choose("what", 5)
		if k == 4 {
			r.Flags.Enabled = true
			v.Assert(db.IdentifyUser(r) == nil && len(r.User.Roles) == 1 && r.User.Roles[0] == "user-Bob1" && len(r.User.Challenges) == 2 && r.User.Challenges[0] == "password", "identified as before")
			scribble(r)
			continue
		}
		o := ops[[]int{7, 9, 10, 11}[k]]
		o.prep(r)
		v.Assert(o.run(db, r) == nil && owned(o, r, db.Users[0]), "listed as before")
		switch b := r.Response.Payload.(type) {
		case *identity.UserMetadataBundle:
			v.Assert(b.Size() == 2 && b.Get()[0].Username == "Bob1" && b.Get()[1].Username == "alice", "listed as before")
			b.Get()[0].Username, b.Get()[1] = "root", nil
			b.Add(&identity.UserMetadata{Username: "root"})
		case *identity.PublicKeyBundle:
			b.Get()[0] = &identity.PublicKey{ID: "root"}
			b.Add(&identity.PublicKey{ID: "root"})
		case *identity.APIKeyBundle:
			b.Get()[0] = &identity.APIKey{ID: "root"}
			b.Add(&identity.APIKey{ID: "root"})
		case *identity.MfaTokenBundle:
			b.Get()[0] = &identity.MfaToken{ID: "root"}
			b.Add(&identity.MfaToken{ID: "root"})
		default:
			v.Assert(false, "an answer of a known type")
		}
	}
	v.Assert(v.Same(before, v.Full(db)), "changing a list changes no record")
}

// C35_samefile: two databases opened from one file.
func C35_samefile() {
	v.Bound("one file opened twice; any operation on the first; the second keeps its records, and saves them")
	p := v.TempPath("db.json")
	a := twoUsers(p)
	b := reopen(p)
	before := v.Full(b)
	anyOp(a, "1")
	v.Assert(v.Same(before, v.Full(b)), "an operation on one database leaves the other")
	v.Assert(auth(b, "bob1", oldPw), "the other answers from its own records")
	x := v.Full(a)
	v.Assert(b.Save() == nil, "saved")
	v.Assert(v.Same(v.Snap(b), v.SnapFile(p)) && v.Same(x, v.Full(a)), "a save writes the database's own records")
}

// C35_reuse: a request which served before serves as a new one.
func C35_reuse() {
	v.Bound("one request used for any two operations (of 13) in a row, by the same user or another, against a new request for the second")
	p, q := v.TempPath("a.json"), v.TempPath("b.json")
	a, b := twoUsers(p), twoUsers(q)
	o1, o2 := ops[v.Choose("first", len(ops))], ops[v.Choose("second", len(ops))]
	n := v.Pick("name", "bob1", "alice")
	r := req("bob1", "bob1@x.io")
	o1.prep(r)
	o1.run(a, r)
	s := req("bob1", "bob1@x.io")
	o1.prep(s)
	o1.run(b, s)
	r.User.Username, r.User.Email = n, n+"@x.io"
	s = req(n, n+"@x.io")
	o2.prep(r)
	o2.prep(s)
	e1, e2 := o2.run(a, r), o2.run(b, s)
	v.Assert((e1 == nil) == (e2 == nil), "a request used before is served as a new one")
	for i := range a.Users {
		u, w := a.Users[i], b.Users[i]
		v.Assert(len(u.Passwords) == len(w.Passwords) && len(u.PublicKeys) == len(w.PublicKeys) && len(u.APIKeys) == len(w.APIKeys) && len(u.MfaTokens) == len(w.MfaTokens) && u.Revision == w.Revision, "with the same effect")
	}
}

// C35_diverge: databases opened from one file answer each from its own
// records once these differ.
func C35_diverge() {
	v.Bound("one file opened twice; questions asked of the first; then the second's key is disabled, expired, deleted or replaced, or its password disabled, expired or changed, its user's roles or mail changed; both are asked again, in either order")
	p := v.TempPath("db.json")
	a := twoUsers(p)
	b := reopen(p)
	t := apiText(0, 0)
	ask := func(db *identity.Database, key, pw bool, role, mail, claimer string) {
		r, err := lookup(db, t)
		v.Assert((err == nil) == key, "a key is accepted by the database's own records")
		if key && err == nil {
			v.Assert(r.User.Username == claimer && r.User.Email == mail, "a key belongs to the user the database has it with")
		}
		v.Assert(auth(db, "bob1", oldPw) == pw, "a password is accepted by the database's own records")
		r = requests.NewRequest()
		r.User.Username, r.Flags.Enabled = "bob1", true
		v.Assert(db.IdentifyUser(r) == nil && len(r.User.Roles) == 1 && r.User.Roles[0] == role, "a user has the roles of the database's own records")
	}
	mail := getUser(a, "bob1", "bob1@x.io").GetMailClaim()
	role := "user-Bob1"
	if v.Choose("asked", 2) == 1 {
		ask(a, true, true, role, mail, "Bob1")
	}
	u := b.Users[0]
	key, pw, role2, mail2 := true, true, role, mail
	switch v.Choose("change", 9) {
	case 0:
		u.APIKeys[0].Disabled, key = true, false
	case 1:
		u.APIKeys[0].Expired, key = true, false
	case 2:
		r := req("bob1", "bob1@x.io")
		r.Key.ID = u.APIKeys[0].ID
		v.Assert(b.DeleteAPIKey(r) == nil, "deleted")
		key = false
	case 3:
		u.Passwords[0].Disabled, pw = true, false
	case 4:
		u.Passwords[0].Expired, pw = true, false
	case 5:
		r := req("bob1", "bob1@x.io")
		r.User.OldPassword, r.User.Password = oldPw, goodPw
		v.Assert(b.ChangeUserPassword(r) == nil && auth(b, "bob1", goodPw) && !auth(a, "bob1", goodPw), "changed in one")
		pw = false
	case 6:
		u.Roles, role2 = []*identity.Role{{Name: "guest"}}, "guest"
	case 7:
		u.EmailAddresses, mail2 = []*identity.EmailAddress{{Address: "other@x.io", Domain: "x.io"}}, "other@x.io"
	case 8:
		u.APIKeys[0].Payload, key = v.Hash(apiText(1, 1)), false
	}
	if v.Choose("order", 2) == 0 {
		ask(b, key, pw, role2, mail2, "Bob1")
		ask(a, true, true, role, mail, "Bob1")
	} else {
		ask(a, true, true, role, mail, "Bob1")
		ask(b, key, pw, role2, mail2, "Bob1")
	}
}
