package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// done tells whether the database on disk has the effect of the operation.
func done(m mut, d *identity.Database) bool {
	b := d.Users[0]
	switch m.name {
	case "AddPublicKey":
		return len(b.PublicKeys) == 3
	case "DeletePublicKey":
		return len(b.PublicKeys) == 1
	case "AddAPIKey":
		return len(b.APIKeys) == 3
	case "DeleteAPIKey":
		return len(b.APIKeys) == 1
	case "AddMfaToken":
		return len(b.MfaTokens) == 3
	case "DeleteMfaToken":
		return len(b.MfaTokens) == 1
	case "ChangeUserPassword":
		return len(b.Passwords) == 3 && b.Passwords[1].Disabled
	case "AddUser":
		return len(d.Users) == 3
	}
	return true
}

func faults() int {
	if v.Thorough() {
		return 2
	}
	return 1
}

// C15_save: a crash or fault at every step of every operation.
func C15_save() {
	v.Bound("every mutating operation with one (thorough: two) file-system calls failing or cut short at half, or the process stopping before a call or in the middle of a write")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m := mkMut(v.Choose("op", mutCount), "0", symText)
	v.Assume(db.Save() == nil)
	before, rev := v.SnapFile(p), db.Revision
	var err error
	v.FaultFS(faults(), true)
	crashed := v.Crashable(func() { err = m.run(db) })
	v.FaultOff()
	after := v.Snap(db)
	file := v.SnapFile(p)
	old, now := v.Same(file, before), v.Same(file, after)
	v.Assert(v.Or(old, now), "the file holds the database before or after the operation")
	d, e := identity.NewDatabase(p)
	v.Assert(e == nil, "the file opens")
	if e != nil {
		return
	}
	v.Assert(v.Same(v.Snap(d), file), "opening the file yields what it holds")
	v.Assert(v.Or(v.And(old, d.Revision == rev), v.And(d.Revision == rev+1, done(m, d))), "nothing in between is on disk")
	if !crashed {
		v.Assert(v.Iff(err == nil, v.And(d.Revision == rev+1)), "the operation reports what is on disk")
	}
	if crashed {
		v.Cover("crash " + m.name)
	} else if err != nil {
		v.Cover("fault " + m.name)
	}
	// what is left behind does not hinder later operations
	v.Assert(d.Save() == nil, "the database can be saved again")
}

// C15_create: a crash or fault while a database is created.
func C15_create() {
	v.Bound("creation of a database, in an existing or missing directory, with one (thorough: two) faults or crashes at any file-system call")
	dir := v.TempPath("sub")
	if v.Choose("dir", 2) == 1 {
		v.Mkdir(dir)
	}
	p := dir + "/db.json"
	v.FaultFS(faults(), true)
	var db *identity.Database
	var err error
	crashed := v.Crashable(func() { db, err = identity.NewDatabase(p) })
	v.FaultOff()
	if !crashed && err == nil {
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "a created database is in the file")
		v.Cover("created")
		return
	}
	d, e := identity.NewDatabase(p)
	v.Assert(e == nil, "the database can be created afterwards")
	if e == nil {
		v.Assert(v.And(d.GetUserCount() == 0, v.Same(v.Snap(d), v.SnapFile(p))), "an empty database is created afterwards")
	}
}

// C15_policy: a crash or fault while unset limits are filled in.
func C15_policy() {
	v.Bound("opening a database without limits, with one (thorough: two) faults or crashes at any file-system call")
	p := v.TempPath("db.json")
	v.WriteJSON(p, &identity.Database{Version: "1.1.6", Revision: 7, LastModified: t0, Users: []*identity.User{richUser(0, "bob1", "bob1@x.io")}})
	before := v.SnapFile(p)
	v.FaultFS(faults(), true)
	var db *identity.Database
	var err error
	crashed := v.Crashable(func() { db, err = identity.NewDatabase(p) })
	v.FaultOff()
	if !crashed && err == nil {
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the opened database is in the file")
	}
	if !crashed && err != nil {
		v.Assert(v.Same(before, v.SnapFile(p)), "a failed opening leaves the file")
	}
	d, e := identity.NewDatabase(p)
	v.Assert(e == nil, "the file opens")
	if e == nil {
		v.Assert(v.And(len(d.Users) == 1, len(d.Users[0].Passwords) == 2, len(d.Users[0].MfaTokens) == 2), "the file holds the users")
	}
}
