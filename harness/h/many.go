package h

import (
	"strconv"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

const crowd = 12

// crowdIDs are as many IDs; the later ones are those of the earlier ones in
// upper case, and others differ in one digit only.
func crowdID(i int) string {
	s := "abcdef00-0000-4000-8000-00000000000" + string("abcdef"[i%6])
	if i >= 6 {
		s = strings.ToUpper(s)
	}
	return s
}

func nth(s string, i int) string { return s + strconv.Itoa(i) }

// crowdDB is a database of as many users with a credential of every kind.
func crowdDB(p string) *identity.Database {
	var us []*identity.User
	for i := 0; i < crowd; i++ {
		u := richUser(2, nth("user", i), nth("user", i)+"@x.io", nth("u", i)+"@y.com")
		u.ID, u.Passwords = crowdID(i), []*identity.Password{mkPassword(v.Hash(nth("Secret-", i)))}
		for j, k := range u.APIKeys {
			t := crowdKey(i, j)
			k.Prefix, k.Payload = t[:24], v.Hash(t)
		}
		us = append(us, u)
	}
	return mkDB(p, us...)
}

func crowdKey(i, j int) string {
	return strings.Repeat(string(rune('A'+i))+string(rune('A'+j)), 36)
}

// C02_many: a dozen users.
func C02_many() {
	v.Bound("twelve users, some of whose IDs differ in letter case only, and each of the 13 operations by any of them")
	p := v.TempPath("db.json")
	db := crowdDB(p)
	i := v.Choose("user", crowd)
	o := ops[v.Choose("op", len(ops)-1)]
	mail := nth("user", i) + "@x.io"
	if v.Choose("mail", 2) == 1 {
		mail = nth("u", i) + "@y.com"
	}
	var was []interface{}
	for _, u := range db.Users {
		was = append(was, v.Full(u))
	}
	r := req("", "")
	for j := 0; j < crowd; j++ {
		if j != i {
			r = req(nth("user", i), nth("user", j)+"@x.io")
			o.prep(r)
			r.User.OldPassword = nth("Secret-", i)
			v.Assert(o.run(db, r) != nil, o.name+" refuses the address of another user")
		}
	}
	r = req(nth("user", i), mail)
	o.prep(r)
	if o.name == "ChangeUserPassword" {
		r.User.OldPassword = nth("Secret-", i)
	}
	v.Assert(o.run(db, r) == nil, o.name+" serves every user")
	v.Assert(owned(o, r, db.Users[i]), o.name+" answers with the named user's records")
	for j, u := range db.Users {
		v.Assert(v.Same(was[j], v.Full(u)) == (j != i || !o.write), o.name+" changes the named user only")
	}
	if o.write {
		v.Assert(v.Same(v.Snap(db), v.Snap(reopen(p))), o.name+" is on disk")
	}
}

// C03_many: a dozen users, passwords and addresses.
func C03_many() {
	v.Bound("twelve users of whom one has twelve passwords, any one of them active, and twelve addresses")
	p := v.TempPath("db.json")
	db0 := crowdDB(p)
	var us []*identity.User
	i, n := v.Choose("user", crowd), v.Choose("active", crowd)
	if i != 0 && i != crowd-1 && i != 5 {
		v.Assume(n == 0 || n == crowd-1)
	}
	for j, u := range db0.Users {
		if j == i {
			u.Passwords = nil
			for k := 0; k < crowd; k++ {
				w := mkPassword(v.Hash(nth("Other-", k)))
				w.Disabled = k != n
				u.Passwords = append(u.Passwords, w)
				u.EmailAddresses = append(u.EmailAddresses, mkMail(nth("more", k)+"@z.io"))
			}
		}
		us = append(us, u)
	}
	db := mkDB(v.TempPath("db2.json"), us...)
	for k := 0; k < crowd; k++ {
		v.Assert(auth(db, nth("user", i), nth("Other-", k)) == (k == n), "exactly the active password authenticates")
		v.Assert(auth(db, nth("more", k)+"@z.io", nth("Other-", n)), "every address of the user authenticates")
		v.Assert(auth(db, nth("user", k), nth("Secret-", k)) == (k != i), "every user authenticates")
	}
}

// C06_many: a dozen users and keys.
func C06_many() {
	v.Bound("twelve users with an active and a disabled key each, of whom one has twelve more keys; each looked up, before and after reopening")
	p := v.TempPath("db.json")
	db0 := crowdDB(p)
	i := []int{0, 5, crowd - 1}[v.Choose("user", 3)]
	u := db0.Users[i]
	for j := 2; j < crowd+2; j++ {
		t := crowdKey(i, j)
		u.APIKeys = append(u.APIKeys, &identity.APIKey{ID: nth("more", j), Prefix: t[:24], Usage: "api", Comment: "c", Payload: v.Hash(t), CreatedAt: t0})
	}
	p = v.TempPath("db2.json")
	db := mkDB(p, db0.Users...)
	check := func(d *identity.Database, gone int) {
		for j := 0; j < crowd; j++ {
			for k := 0; k < crowd+2; k++ {
				if k > 1 && j != i {
					break
				}
				r, err := lookup(d, crowdKey(j, k))
				v.Assert((err == nil) == (k != 1 && (j != i || k != gone)), "exactly the active keys are found")
				v.Assert(err != nil || r.User.Username == nth("user", j), "the owner is named")
			}
		}
	}
	check(db, -1)
	gone := []int{0, 2, 7, crowd + 1}[v.Choose("gone", 4)]
	r := req(nth("user", i), nth("user", i)+"@x.io")
	r.Key.ID = u.APIKeys[gone].ID
	v.Assert(db.DeleteAPIKey(r) == nil, "deleted")
	check(db, gone)
	check(reopen(p), gone)
}

// C07_many: a dozen keys issued by one user.
func C07_many() {
	v.Bound("twelve keys issued, any one of them deleted")
	p := v.TempPath("db.json")
	db := mkDB(p, mkUser(0, "bob", v.Hash(oldPw), "bob@x.io"))
	var ts, ids []string
	for i := 0; i < crowd; i++ {
		r := req("bob", "bob@x.io")
		r.Key.Usage, r.Key.Comment = "api", "c"
		v.Assert(db.AddAPIKey(r) == nil, "issued")
		t, _ := r.Response.Payload.(string)
		ts, ids = append(ts, t), append(ids, db.Users[0].APIKeys[i].ID)
	}
	v.Assert(len(listKeys(db, "bob", "api")) == crowd, "every key is listed")
	gone := v.Choose("gone", crowd)
	r := req("bob", "bob@x.io")
	r.Key.ID = ids[gone]
	v.Assert(db.DeleteAPIKey(r) == nil, "deleted")
	for _, d := range []*identity.Database{db, reopen(p)} {
		l := listKeys(d, "bob", "api")
		v.Assert(len(l) == crowd-1, "one key leaves the listing")
		for i, t := range ts {
			in := false
			for _, k := range l {
				in = in || k.ID == ids[i]
			}
			_, err := lookup(d, t)
			v.Assert(in == (i != gone) && (err == nil) == (i != gone), "exactly that key is gone")
		}
	}
}

// C08_many: a dozen public keys.
func C08_many() {
	v.Bound("twelve stored keys, one of which (any) is the key added; any one deleted")
	p := v.TempPath("db.json")
	bob := pubUser(0, "bob")
	at := v.Choose("held", crowd+1)
	for i := 0; i < crowd; i++ {
		k := &identity.PublicKey{ID: nth("k", i), Usage: "ssh", Type: "ssh-rsa", Fingerprint: nth("f", i), Comment: "c", Payload: "p", CreatedAt: t0}
		if i == at {
			k.Fingerprint = "SHA256:" + sshPrint(sshKeys[0])
		}
		bob.PublicKeys = append(bob.PublicKeys, k)
	}
	db := mkDB(p, bob)
	v.Assert((addPub(db, "bob", "ssh", sshKeys[0], "c", false) != nil) == (at < crowd), "a key is refused exactly when the user holds it")
	n := crowd
	if at == crowd {
		n++
	}
	v.Assert(len(listPub(db, "bob", "ssh")) == n, "every key is listed")
	gone := v.Choose("gone", crowd)
	r := req("bob", "bob@x.io")
	r.Key.ID = nth("k", gone)
	v.Assert(db.DeletePublicKey(r) == nil, "deleted")
	for _, d := range []*identity.Database{db, reopen(p)} {
		l := listPub(d, "bob", "ssh")
		v.Assert(len(l) == n-1, "one key leaves the listing")
		for _, k := range l {
			v.Assert(k.ID != nth("k", gone), "exactly that key is gone")
		}
	}
	v.Assert((addPub(db, "bob", "ssh", sshKeys[0], "c", false) == nil) == (at == gone), "a deleted key can be added again")
}

// C09_many: a dozen tokens.
func C09_many() {
	v.Bound("twelve stored tokens, any one of which has the secret or the comment of the one added, or none; any one deleted")
	p := v.TempPath("db.json")
	var toks []*identity.MfaToken
	at, what := v.Choose("held", crowd+1), v.Choose("what", 2)
	for i := 0; i < crowd; i++ {
		t := mkTok(nth("t", i), nth("s", i), nth("c", i))
		if i == at && what == 0 {
			t.Secret = "a-secret"
		} else if i == at {
			t.Comment = "phone"
		}
		t.Disabled = i%5 == 4
		toks = append(toks, t)
	}
	db := mfaDB(p, toks...)
	enrol(p, db, totpReq("a-secret", "phone", "", 300, 6, enrolCode("a-secret", "sha1", 6, 300)), at == crowd, "refused exactly when the secret or comment is taken")
	n := len(db.Users[0].MfaTokens)
	v.Assert(len(listMfa(db, "bob")) == n-2, "every enabled token is listed")
	gone := v.Choose("gone", crowd)
	r := req("bob", "bob@x.io")
	r.MfaToken.ID = nth("t", gone)
	v.Assert(db.DeleteMfaToken(r) == nil, "deleted")
	for _, d := range []*identity.Database{db, reopen(p)} {
		v.Assert(len(d.Users[0].MfaTokens) == n-1, "one token is gone")
		for _, t := range d.Users[0].MfaTokens {
			v.Assert(t.ID != nth("t", gone), "exactly that token is gone")
		}
		l := len(listMfa(d, "bob"))
		v.Assert(l == n-3 || gone%5 == 4 && l == n-2, "the others are listed as before")
	}
}

// C11_many: a dozen security keys.
func C11_many() {
	v.Bound("twelve security keys of one user, any of them disabled; assertions by any")
	p := v.TempPath("db.json")
	var toks []*identity.MfaToken
	off := v.Choose("off", crowd)
	for i := 0; i < crowd; i++ {
		t := mkStick(i%3, nth("cred", i))
		t.Disabled = i == off
		toks = append(toks, t)
	}
	db := stickDB(p, toks...)
	i := v.Choose("by", crowd)
	a := genuine(i%3, nth("cred", i))
	v.Assert(assertAs(db, "bob", b64(a.doc()), "issued") == (i != off), "exactly the enabled tokens are accepted")
	a.by = (i + 1) % 3
	v.Assert(!assertAs(db, "bob", b64(a.doc()), "issued"), "another key's signature is refused")
	v.Assert(!assertAs(db, "alice", b64(genuine(i%3, nth("cred", i)).doc()), "issued"), "a key of another user is refused")
}

// C27_many: users with a dozen of everything.
func C27_many() {
	v.Bound("twelve users; the one identified has twelve roles and twelve tokens, any one of which is enabled")
	p := v.TempPath("db.json")
	db0 := crowdDB(p)
	i := []int{0, 6, crowd - 1}[v.Choose("user", 3)]
	u := db0.Users[i]
	u.Roles, u.MfaTokens = nil, nil
	on, kind := v.Choose("on", crowd+1), v.Pick("kind", "totp", "u2f")
	for j := 0; j < crowd; j++ {
		u.Roles = append(u.Roles, &identity.Role{Name: nth("role", j), Organization: []string{"", "org"}[j%2]})
		t := mkTok(nth("t", j), nth("s", j), nth("c", j))
		t.Disabled = j != on
		if j == on {
			t.Type = kind
		}
		u.MfaTokens = append(u.MfaTokens, t)
	}
	db := mkDB(v.TempPath("db2.json"), db0.Users...)
	r := requests.NewRequest()
	r.User.Username, r.Flags.Enabled = nth("user", i), true
	v.Assert(db.IdentifyUser(r) == nil, "a user is identified")
	v.Assert(r.User.Username == nth("user", i) && r.User.Email == nth("user", i)+"@x.io", "the user's name and address are reported")
	v.Assert(len(r.User.Roles) == crowd, "every role is reported")
	for j, s := range r.User.Roles {
		v.Assert(s == []string{"", "org/"}[j%2]+nth("role", j), "the roles are the user's")
	}
	v.Assert(r.Flags.MfaConfigured == (on < crowd) && r.Flags.MfaApp == (on < crowd && kind == "totp") && r.Flags.MfaUniversal == (on < crowd && kind == "u2f"), "the flags tell about the enabled token")
	v.Assert((len(r.User.Challenges) == 2) == (on < crowd), "MFA is asked for exactly when a token is enabled")
}

// C28_many: listings of a dozen users.
func C28_many() {
	v.Bound("twelve users, and up to two more added; each lists and is retrieved")
	p := v.TempPath("db.json")
	db := crowdDB(p)
	n := crowd
	for k := v.Choose("added", 3); k > 0; k-- {
		v.Assert(db.AddUser(newUser(nth("zoe", k), goodPw, nth("zoe", k)+"@x.io")) == nil, "added")
		n++
	}
	for _, d := range []*identity.Database{db, reopen(p)} {
		v.Assert(d.GetUserCount() == n, "the count is the number of users")
		for i := 0; i < crowd; i++ {
			l := list(d, nth("user", i), nth("user", i)+"@x.io")
			v.Assert(len(l) == n, "every user is listed")
			for j, m := range l {
				v.Assert(metaOf(m, d.Users[j]), "the metadata are the user's")
			}
			v.Assert(getUser(d, nth("user", i), nth("u", i)+"@y.com") == d.Users[i], "retrieval returns the user")
		}
	}
}

// C13_many: a dozen users changing in turn.
func C13_many() {
	v.Bound("twelve users, any two of whom change something, one after the other")
	p := v.TempPath("db.json")
	db := crowdDB(p)
	for n := 0; n < 2; n++ {
		i, k := []int{0, 6, crowd - 1}[v.Choose("user", 3)], 0
		if n == 0 || v.Thorough() {
			k = v.Choose("op", 7)
		} else {
			k = []int{0, 3, 6}[v.Choose("op", 3)]
		}
		o := ops[k]
		r := req(nth("user", i), nth("user", i)+"@x.io")
		o.prep(r)
		r.User.OldPassword = nth("Secret-", i)
		rev := db.Revision
		before := v.SnapFile(p)
		if o.run(db, r) != nil {
			v.Assert(v.Same(before, v.SnapFile(p)) && db.Revision == rev, "a refused change leaves the file")
			continue
		}
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the file holds the database")
	}
	d := reopen(p)
	v.Assert(v.Same(v.Snap(db), v.Snap(d)), "reopening gives the same database")
	for i := 0; i < crowd; i++ {
		v.Assert(getUser(d, nth("user", i), nth("user", i)+"@x.io") == d.Users[i], "every user is found again")
	}
}
