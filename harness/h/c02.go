package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

func holds(u *identity.User, name, email string) bool {
	m := false
	for _, e := range u.EmailAddresses {
		m = v.Or(m, fold(e.Address, email))
	}
	return v.And(fold(u.Username, name), m)
}

func twoUsers(p string) *identity.Database {
	return mkDB(p, richUser(0, "Bob1", "bob1@x.io", "B@y.com"), richUser(1, "alice", "alice@x.io"))
}

// owned checks that a response payload belongs to user u.
func owned(o op, r *requests.Request, u *identity.User) bool {
	switch o.name {
	case "GetUser":
		w, ok := r.Response.Payload.(*identity.User)
		return ok && w == u
	case "GetPublicKeys":
		b, ok := r.Response.Payload.(*identity.PublicKeyBundle)
		return ok && b.Size() == 1 && len(b.Get()) == 1 && b.Get()[0] == u.PublicKeys[0]
	case "GetAPIKeys":
		b, ok := r.Response.Payload.(*identity.APIKeyBundle)
		return ok && b.Size() == 1 && len(b.Get()) == 1 && b.Get()[0] == u.APIKeys[0]
	case "GetMfaTokens":
		b, ok := r.Response.Payload.(*identity.MfaTokenBundle)
		return ok && b.Size() == 1 && len(b.Get()) == 1 && b.Get()[0] == u.MfaTokens[0]
	case "AddAPIKey":
		_, ok := r.Response.Payload.(string)
		return ok
	}
	return true
}

func actOn(name, email string) {
	p := v.TempPath("db.json")
	db := twoUsers(p)
	o := ops[v.Choose("op", len(ops))]
	m0, m1 := holds(db.Users[0], name, email), holds(db.Users[1], name, email)
	s0, s1, sf := v.Snap(db.Users[0]), v.Snap(db.Users[1]), v.SnapFile(p)
	all := v.Snap(db)
	r := req(name, email)
	o.prep(r)
	err := o.run(db, r)
	if o.name == "DeleteUser" {
		v.Assert(err != nil, "user deletion refused")
	} else {
		v.Assert(v.Iff(err == nil, v.Or(m0, m1)), o.name+" succeeds exactly for matching username and e-mail")
	}
	if err != nil {
		v.Assert(v.Same(all, v.Snap(db)), o.name+" refused changes nothing")
		v.Assert(v.Same(sf, v.SnapFile(p)), o.name+" refused leaves the file")
		v.Assert(silent(r), o.name+" refused discloses nothing")
		return
	}
	v.Cover(o.name)
	c0, c1 := v.Not(v.Same(s0, v.Snap(db.Users[0]))), v.Not(v.Same(s1, v.Snap(db.Users[1])))
	if o.write {
		v.Assert(v.Implies(m0, v.And(c0, v.Not(c1))), o.name+" changes the named user only (first)")
		v.Assert(v.Implies(m1, v.And(c1, v.Not(c0))), o.name+" changes the named user only (second)")
	} else {
		v.Assert(v.And(v.Not(c0), v.Not(c1)), o.name+" changes no user")
		v.Assert(v.Same(sf, v.SnapFile(p)), o.name+" leaves the file")
	}
	v.Assert(v.Implies(m0, owned(o, r, db.Users[0])), o.name+" answers with the named user's records (first)")
	v.Assert(v.Implies(m1, owned(o, r, db.Users[1])), o.name+" answers with the named user's records (second)")
}

// C02_name: every username against fixed e-mails.
func C02_name() {
	v.Bound("13 operations; two users with equal credential IDs; every username of 0, 1, 4 or 5 printable bytes")
	lens := []int{0, 1, 4, 5}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 9, 10}
	}
	actOn(v.Str("name", "print", lens...), v.Pick("email", "bob1@x.io", "B@Y.com", "ALICE@x.io", "none@x.io", "alice"))
}

// C02_email: every e-mail against fixed usernames.
func C02_email() {
	v.Bound("13 operations; two users with equal credential IDs; every e-mail text of 0, 5, 7, 9 or 10 printable bytes")
	lens := []int{0, 5, 7, 9, 10}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	}
	actOn(v.Pick("name", "bob1", "ALICE", "nemo", "alice@x.io", "b@y.com"), v.Str("email", "print", lens...))
}

// C02_short: users whose names or addresses are short, or contain an @.
func C02_short() {
	v.Bound("stored names of 1-3 and e-mails of 3-7 characters from a catalogue, all operations")
	n := v.Pick("name", "a", "ab", "abc", "a@b", "bob@x.io")
	e := v.Pick("email", "a@b", "a@b.c", "a@b.cd", "bob2@x.io")
	p := v.TempPath("db.json")
	db := mkDB(p, richUser(0, n, e), richUser(1, "alice", "alice@x.io"))
	o := ops[v.Choose("op", len(ops)-1)]
	r := req(n, e)
	o.prep(r)
	err := o.run(db, r)
	v.Assert(err == nil, o.name+" serves users with short names and addresses")
	r = req(n, "alice@x.io")
	o.prep(r)
	v.Assert(o.run(db, r) != nil, o.name+" refuses a mixed pair")
}
