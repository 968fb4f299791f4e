package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// shape is what the lookups of a two-user database answer.
func shape(db *identity.Database) []bool {
	var l []bool
	for _, n := range []string{"bob1", "alice", "zoe0", "zoe0@x.io", "b@y.com"} {
		r := requests.NewRequest()
		r.User.Username = n
		db.IdentifyUser(r)
		l = append(l, r.User.Username != "nobody", r.User.Email == n)
	}
	for _, k := range []string{apiText(0, 0), apiText(1, 0)} {
		r := requests.NewRequest()
		r.Key.Payload = k
		l = append(l, db.LookupAPIKey(r) == nil)
	}
	l = append(l, auth(db, "bob1", oldPw), auth(db, "bob1", nextPw), auth(db, "zoe0", goodPw), auth(db, "alice", oldPw))
	return l
}

func sameShape(a, b []bool) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = v.And(ok, v.Iff(a[i], b[i]))
	}
	return ok
}

// C14_arguments: arguments which make an operation fail.
func C14_arguments() {
	v.Bound("every mutating operation with one argument replaced by any text of 0-4 printable bytes (names, passwords, usages, payloads, types, algorithms, codes, IDs, addresses, full names, roles) or any 32-bit number")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	k := v.Choose("op", mutCount-1)
	m := mkMut(k, "0", nil)
	r := m.r
	t := v.Str("text", "print", 0, 1, 4)
	kind := 0
	set := func(fs ...*string) { kind = v.Choose("arg", len(fs)); *fs[kind] = t }
	switch m.name {
	case "AddPublicKey":
		set(&r.Key.Usage, &r.Key.Payload, &r.User.Username, &r.User.Email)
	case "AddAPIKey":
		set(&r.Key.Usage, &r.Key.Comment, &r.User.Username, &r.User.Email)
	case "DeletePublicKey", "DeleteAPIKey":
		set(&r.Key.ID, &r.User.Username, &r.User.Email)
	case "DeleteMfaToken":
		set(&r.MfaToken.ID, &r.User.Username, &r.User.Email)
	case "ChangeUserPassword":
		if v.Choose("pw", 2) == 1 {
			t = v.Str("long", "print", 7, 8)
		}
		set(&r.User.OldPassword, &r.User.Password, &r.User.Username, &r.User.Email)
	case "AddMfaToken":
		if v.Choose("number", 2) == 1 {
			n := v.Int("n", -1<<31, 1<<31-1)
			v.Assume(v.Or(n < 4, n > 8))
			if v.Choose("which", 2) == 0 {
				v.Assume(v.Or(n < 30, n > 300))
				r.MfaToken.Period = n
			} else {
				v.Assume(n != 0)
				r.MfaToken.Digits = n
			}
			break
		}
		set(&r.MfaToken.Type, &r.MfaToken.Algorithm, &r.MfaToken.Passcode, &r.MfaToken.Comment, &r.User.Username, &r.User.Email)
		if kind == 3 {
			r.MfaToken.Comment = v.Pick("dup", "phone of Bob1", "phone of bob1")
		}
	case "AddUser":
		switch v.Choose("what", 3) {
		case 0:
			set(&r.User.Username, &r.User.Email, &r.User.Password, &r.User.FullName)
		case 1:
			t = v.Pick("which", "alice", "Alice", "alice@x.io", "B@Y.com", "b@y.COM", "bob1@x.io")
			set(&r.User.Username, &r.User.Email)
		case 2:
			r.User.Roles = []string{"ok", v.Str("role", "print", 0, 2)}
		}
	}
	before, file, sh := v.Full(db), v.SnapFile(p), shape(db)
	err := m.run(db)
	if err == nil {
		v.Cover("succeeded")
		return
	}
	v.Cover(m.name)
	v.Assert(v.Same(before, v.Full(db)), "a refused request leaves the database")
	v.Assert(v.Same(file, v.SnapFile(p)), "a refused request leaves the file")
	v.Assert(sameShape(sh, shape(db)), "a refused request leaves what lookups answer")
	// nothing of the refused request stays behind
	again := mkMut(k, "0", nil)
	v.Assert(again.run(db) == nil, "a proper request succeeds afterwards")
}

// C14_io: every single fault while saving.
func C14_io() {
	v.Bound("every mutating operation with one failing, or cut short, file-system call at any position of its commit, then repeated without faults")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	k := v.Choose("op", mutCount)
	m := mkMut(k, "0", fixText)
	before, file, sh := v.Full(db), v.SnapFile(p), shape(db)
	v.FaultFS(1, false)
	err := m.run(db)
	v.FaultOff()
	if err == nil {
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "an acknowledged change is in the file")
		return
	}
	v.Cover(m.name)
	v.Assert(v.Same(before, v.Full(db)), "a failed save leaves the database")
	v.Assert(v.Same(file, v.SnapFile(p)), "a failed save leaves the file")
	v.Assert(sameShape(sh, shape(db)), "a failed save leaves what lookups answer")
	again := mkMut(k, "1", fixText)
	if m.name == "AddUser" {
		again.r.User.Username, again.r.User.Email = "zoe0", "zoe0@x.io"
	}
	v.Assert(again.run(db) == nil, "the request succeeds when tried again")
	v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "and is saved")
}

// C14_place: the file or its directory is gone or in the way.
func C14_place() {
	v.Bound("every mutating operation after the file was replaced by a directory, or its directory by nothing or a file")
	dir := v.TempPath("sub")
	v.Mkdir(dir)
	p := dir + "/db.json"
	db := twoUsers(p)
	before, sh := v.Full(db), shape(db)
	k := v.Choose("op", mutCount)
	m := mkMut(k, "0", fixText)
	how := v.Choose("how", 3)
	v.Remove(p)
	switch how {
	case 0:
		v.Mkdir(p)
	case 1:
		v.Remove(dir)
	case 2:
		v.Remove(dir)
		v.WriteFile(dir, "x")
	}
	err := m.run(db)
	v.Assert(err != nil, "a save which cannot work is reported")
	if err == nil {
		return
	}
	v.Assert(v.Same(before, v.Full(db)), "a failed save leaves the database")
	v.Assert(sameShape(sh, shape(db)), "a failed save leaves what lookups answer")
}
