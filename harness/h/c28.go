package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// manyUsers are n users, one of which has fields of any value.
func manyUsers(n int) []*identity.User {
	var l []*identity.User
	which := v.Choose("which", n)
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		u := mkUser(i, "user"+s, v.Hash(oldPw), "user"+s+"@x.io", "u"+s+"@y.io")
		u.Revision = v.Int("revision"+s, 1, 1<<31)
		u.Title = "title" + s
		u.Name = &identity.Name{First: "First", Last: s}
		if i == which {
			u.Enabled = v.Bool("enabled")
			u.Title = v.Str("title", "print", 0, 2)
			switch v.Choose("name", 3) {
			case 0:
				u.Name = nil
			case 1:
				u.Name = &identity.Name{First: v.Str("first", "alnum", 0, 2), Last: v.Str("last", "alnum", 0, 2)}
			}
			if v.Choose("avatar", 2) == 1 {
				u.Avatar = &identity.Image{Title: "t", Path: v.Str("path", "print", 0, 2)}
			}
			if v.Choose("mail", 2) == 1 {
				// the primary address is the one the record names
				u.EmailAddress = u.EmailAddresses[1]
			}
		}
		if u.Name != nil {
			u.Names = []*identity.Name{u.Name}
		}
		l = append(l, u)
	}
	return l
}

// same metadata as the record.
func metaOf(m *identity.UserMetadata, u *identity.User) bool {
	name, path, mail := "", "", ""
	if u.Name != nil {
		name = claim(u.Name.First, u.Name.Last)
	}
	if u.Avatar != nil {
		path = u.Avatar.Path
	}
	if u.EmailAddress != nil {
		mail = u.EmailAddress.Address
	}
	return v.And(m.ID == u.ID, m.Enabled == u.Enabled, m.Username == u.Username, m.Title == u.Title, m.Name == name, m.Email == mail,
		m.Created.Equal(u.Created), m.LastModified.Equal(u.LastModified), m.Revision == u.Revision, m.Avatar == path)
}

func list(db *identity.Database, name, email string) []*identity.UserMetadata {
	r := req(name, email)
	if db.GetUsers(r) != nil {
		return nil
	}
	b, ok := r.Response.Payload.(*identity.UserMetadataBundle)
	if !ok || b.Size() != len(b.Get()) {
		return nil
	}
	return b.Get()
}

// C28_list: listings and retrieval of stored users.
func C28_list() {
	v.Bound("up to three users (the request is by the last); any revisions up to 2^31, any enabled flag, title, name and image path of one of them; dates differing per user")
	n := 1 + v.Choose("users", 3)
	p := v.TempPath("db.json")
	l := manyUsers(n)
	for i, u := range l {
		u.Created, u.LastModified = t0.Add(time.Duration(i)*time.Hour), t0.Add(time.Duration(i+4)*time.Minute)
	}
	db := mkDB(p, l...)
	before, file := v.Full(db), v.SnapFile(p)
	name := "user" + string(rune('0'+n-1))
	ms := list(db, name, name+"@x.io")
	v.Assert(len(ms) == n, "every user is listed")
	for i, m := range ms {
		v.Assert(i < n && metaOf(m, l[i]), "the metadata are the user's")
	}
	v.Assert(db.GetUserCount() == n, "the count is the number of users")
	for i, u := range l {
		s := "user" + string(rune('0'+i))
		g := getUser(db, s, s+"@x.io")
		v.Assert(v.Same(v.Snap(g), v.Snap(u)), "retrieval returns the user")
		v.Assert(g == getUser(db, s, "u"+string(rune('0'+i))+"@y.io"), "retrieval by another address returns the same user")
	}
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "listing changes nothing")
	// what is listed is a copy
	for _, m := range ms {
		m.Username, m.Email, m.Enabled = "changed", "changed", false
	}
	v.Assert(v.Same(before, v.Full(db)), "a listing shares nothing with the database")
}

// C28_none: requests which name nobody.
func C28_none() {
	v.Bound("two users; every name of 0, 1, 4 or 5 and e-mail of 0, 9 or 10 printable bytes which are not of one user")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	n, e := v.Str("name", "print", 0, 1, 4, 5), v.Str("mail", "print", 0, 9, 10)
	v.Assume(v.Not(v.Or(holds(db.Users[0], n, e), holds(db.Users[1], n, e))))
	v.Assert(list(db, n, e) == nil, "nobody lists users")
	v.Assert(getUser(db, n, e) == nil, "nobody retrieves a user")
	r := req(n, e)
	r.Query.ID = uids[0]
	v.Assert(db.DeleteUser(r) != nil, "nobody deletes a user")
	v.Assert(db.GetUserCount() == 2, "nobody deletes a user")
}

// C28_delete: deletion is refused.
func C28_delete() {
	v.Bound("two users; deletion of every ID of 0-3 printable bytes, of the users' IDs, names and addresses, by either user")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	before, file := v.Full(db), v.SnapFile(p)
	r := req("bob1", "b@y.com")
	if v.Choose("who", 2) == 1 {
		r = req("alice", "alice@x.io")
	}
	r.Query.ID = v.Str("id", "print", 0, 1, 3)
	if v.Choose("real", 2) == 1 {
		r.Query.ID = v.Pick("which", uids[0], uids[1], "bob1", "alice", "alice@x.io")
	}
	r.Query.Name = v.Pick("name", "", "bob1", "alice")
	v.Assert(db.DeleteUser(r) != nil, "deletion is refused")
	v.Assert(silent(r), "deletion answers nothing")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "deletion changes nothing")
	v.Assert(db.GetUserCount() == 2 && len(list(db, "alice", "alice@x.io")) == 2, "users are still listed")
	v.Assert(auth(db, "bob1", oldPw), "users still authenticate")
}

// C28_added: listings follow additions and changes.
func C28_added() {
	v.Bound("up to two users added by the API (full names from a catalogue), one of seven changes to a user, reopened or not; failed additions in between")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	n := 2
	for i := v.Choose("more", 3); i > 0; i-- {
		s := string(rune('0' + i))
		q := newUser("zoe"+s, goodPw, "zoe"+s+"@x.io")
		q.User.FullName = v.Pick("full"+s, "", "Zoe Doe")
		v.Assume(db.AddUser(q) == nil)
		n++
		if v.Bool("again" + s) {
			v.Assert(db.AddUser(newUser("zoe"+s, goodPw, "other@x.io")) != nil, "a user is added once")
		}
	}
	if k := v.Choose("change", 8); k < 7 {
		v.Assume(mkMut(k, "0", nil).run(db) == nil)
	}
	if v.Choose("reopen", 2) == 1 {
		db = reopen(p)
	}
	ms := list(db, "bob1", "bob1@x.io")
	v.Assert(len(ms) == n, "every user is listed")
	v.Assert(db.GetUserCount() == n, "the count is the number of users")
	for i, u := range db.Users {
		v.Assert(i < len(ms) && metaOf(ms[i], u), "the metadata are the user's")
		r := requests.NewRequest()
		r.User.Username, r.User.Email = u.Username, u.EmailAddresses[0].Address
		v.Assert(db.GetUser(r) == nil && r.Response.Payload == interface{}(u), "retrieval returns the user")
	}
}
