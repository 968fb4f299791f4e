package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

func within(t, a, b time.Time) bool { return v.And(v.Not(t.Before(a)), v.Not(t.After(b))) }

// C16_writes: every mutating operation.
func C16_writes() {
	v.Bound("every mutating operation, succeeding or failing for an unknown ID or wrong password, on two users; password changes to another or the same password; any database revision, any revision below 2^31 of the user who asks; the clock advances by up to 2^16 s between readings")
	p := v.TempPath("db.json")
	bob, alice := richUser(0, "Bob1", "bob1@x.io", "B@y.com"), richUser(1, "alice", "alice@x.io")
	bob.Revision = v.Int("bob", 0, 1<<31-2)
	r0 := v.Uint64("revision")
	db := openWith(p, &identity.Database{Revision: r0, LastModified: t0, Users: []*identity.User{bob, alice}})
	b, a := db.Users[0], db.Users[1]
	rb, ra := b.Revision, a.Revision
	v.Assert(v.And(db.Revision == r0, db.LastModified.Equal(t0)), "opening leaves the revision")
	k := v.Choose("op", mutCount)
	m := mkMut(k, "0", nil)
	fail := v.Choose("fail", 2) == 1
	if !fail && m.name != "AddUser" && m.user == 0 {
		m.r.Key.Disabled = v.Bool("disabled")
		m.r.MfaToken.Disabled = m.r.Key.Disabled
	}
	if fail {
		m.r.Key.ID, m.r.MfaToken.ID, m.r.User.OldPassword, m.r.Key.Usage, m.r.MfaToken.Type = "none", "none", "wrong", "none", "none"
		if m.name == "AddUser" {
			m.r.User.Username = "alice"
		}
	}
	v.SymClock()
	if m.name == "ChangeUserPassword" && !fail && v.Choose("same", 2) == 1 {
		m.r.User.Password = m.r.User.OldPassword
	}
	if m.name == "AddMfaToken" {
		// its code depends on the clock
		v.ClockStep(1)
		m.r.MfaToken.Passcode = totp("fresh-secret", "sha1", 6, uint64(time.Now().Unix()/300))
	}
	t1 := time.Now()
	err := m.run(db)
	t2 := time.Now()
	if err != nil {
		v.Cover("failed " + m.name)
		v.Assert(v.And(db.Revision == r0, db.LastModified.Equal(t0), b.Revision == rb, b.LastModified.Equal(t0), a.Revision == ra, a.LastModified.Equal(t0)), "a failed request leaves revisions and times")
		return
	}
	v.Cover(m.name)
	v.Assert(db.Revision == r0+1, "a change increases the revision by one")
	v.Assert(within(db.LastModified, t1, t2), "a change sets the modification time")
	v.Assert(v.And(a.Revision == ra, a.LastModified.Equal(t0)), "other users' revisions stay")
	if m.user == 0 {
		v.Assert(b.Revision > rb, "the user's revision increases")
		v.Assert(within(b.LastModified, t1, t2), "the user's modification time is set")
	} else {
		v.Assert(v.And(b.Revision == rb, b.LastModified.Equal(t0)), "other users' revisions stay")
	}
	if m.user == 2 {
		z := db.Users[2]
		v.Assert(v.And(within(z.Created, t1, t2), within(z.LastModified, t1, t2)), "the added user's times are set")
	}
	d := reopen(p)
	v.Assert(v.And(d.Revision == db.Revision, d.LastModified.Equal(db.LastModified)), "the file has the revision and time")
}

// C16_soon: a change soon after another one.
func C16_soon() {
	v.Bound("two changes (of four kinds, by one user or two) in a row; the clock advances by up to 2^16 s, or not at all, between readings")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	v.SymClock()
	for i := 0; i < 2; i++ {
		u := v.Choose("user", 2)
		n := []string{"bob1", "alice"}[u]
		r := req(n, n+"@x.io")
		r0, rev, oth := db.Revision, db.Users[u].Revision, v.Full(db.Users[1-u])
		k := v.Choose("op", 4)
		t1 := time.Now()
		switch k {
		case 0:
			r.Key.ID = []string{"key", "key2"}[i]
			v.Assume(db.DeleteAPIKey(r) == nil)
		case 1:
			r.Key.Usage, r.Key.Payload = "ssh", sshKeys[i]
			v.Assume(db.AddPublicKey(r) == nil)
		case 2:
			v.Assume(db.Save() == nil)
		case 3:
			r.MfaToken.ID = []string{"tok", "tok2"}[i]
			v.Assume(db.DeleteMfaToken(r) == nil)
		}
		t2 := time.Now()
		v.Assert(v.And(db.Revision == r0+1, within(db.LastModified, t1, t2)), "each change is counted and timed")
		v.Assert(v.Iff(db.Users[u].Revision > rev, k != 2), "each change of the user is counted")
		v.Assert(k == 2 || within(db.Users[u].LastModified, t1, t2), "each change of the user is timed")
		v.Assert(v.Same(oth, v.Full(db.Users[1-u])), "the other user is left alone")
	}
}

// C16_reads: every read-only operation.
func C16_reads() {
	v.Bound("every read-only operation, identification, authentication by password and by security key, lookup, listing of policies, copying and reopening; any revisions")
	p := v.TempPath("db.json")
	bob, alice := richUser(0, "bob1", "bob1@x.io"), richUser(1, "alice", "alice@x.io")
	bob.Revision = v.Int("bob", 0, 1<<31-2)
	bob.MfaTokens = append(bob.MfaTokens, mkStick(0, "credA"))
	r0 := v.Uint64("revision")
	db := openWith(p, &identity.Database{Revision: r0, LastModified: t0, Users: []*identity.User{bob, alice}})
	before, file := v.Full(db), v.SnapFile(p)
	n := v.Pick("name", "bob1", "nemo")
	r := req(n, n+"@x.io")
	k := v.Choose("op", 13)
	switch {
	case k < 6:
		o := ops[7+k]
		o.prep(r)
		o.run(db, r)
	case k == 6:
		r.Flags.Enabled = true
		db.IdentifyUser(r)
	case k == 7:
		r.User.Password = v.Pick("pw", oldPw, "wrong")
		db.AuthenticateUser(r)
	case k == 8:
		r.Key.Payload = v.Pick("key", apiText(0, 0), apiText(0, 1))
		db.LookupAPIKey(r)
	case k == 9:
		db.GetUsernamePolicySummary()
		db.GetUsernamePolicyRegex()
		db.GetPasswordPolicySummary()
		db.GetPasswordPolicyRegex()
		db.GetUserCount()
		db.GetPath()
	case k == 10:
		v.Assert(db.Copy(v.TempPath("copy.json")) == nil, "the copy succeeds")
	case k == 11:
		db = reopen(p)
	case k == 12:
		a := genuine(0, "credA")
		a.rest = []byte{v.Byte("counter"), 0, 0, 9}
		assertAs(db, n, b64(a.doc()), v.Pick("challenge", "issued", "other"))
	}
	v.Assert(v.Same(before, v.Full(db)), "reading leaves the database with its revisions and times")
	v.Assert(v.Same(file, v.SnapFile(p)), "reading leaves the file")
}

// C16_future: stored times which are not before the change.
func C16_future() {
	v.Bound("stored modification times which are absent, decades ahead or of another zone; every mutating operation")
	p := v.TempPath("db.json")
	bob, alice := richUser(0, "Bob1", "bob1@x.io", "B@y.com"), richUser(1, "alice", "alice@x.io")
	late := []time.Time{{}, t0.AddDate(80, 0, 0), time.Date(2090, 1, 2, 3, 4, 5, 6, time.FixedZone("east", 3600))}[v.Choose("stored", 3)]
	bob.LastModified, alice.LastModified = late, late
	db := openWith(p, &identity.Database{Revision: 7, LastModified: late, Users: []*identity.User{bob, alice}})
	b, a := db.Users[0], db.Users[1]
	rb := b.Revision
	m := mkMut(v.Choose("op", mutCount), "0", nil)
	t1 := time.Now()
	err := m.run(db)
	t2 := time.Now()
	v.Assert(err == nil, m.name+" succeeds")
	v.Assert(db.Revision == 8 && within(db.LastModified, t1, t2), "a change sets the revision and the modification time")
	v.Assert(a.LastModified.Equal(late), "other users' times stay")
	if m.user == 0 {
		v.Assert(b.Revision > rb && within(b.LastModified, t1, t2), "the user's modification time is set")
	} else {
		v.Assert(b.Revision == rb && b.LastModified.Equal(late), "other users' times stay")
	}
}
