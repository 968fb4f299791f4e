package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// C30_copy: a copy, and whatever happens to the original afterwards.
func C30_copy() {
	v.Bound("two users with any comments of 1-3 printable bytes; copying to a new file, over an old one, over an other database or a longer file; then any mutating operation, reopening both")
	p, c := v.TempPath("db.json"), v.TempPath("copy.json")
	bob := richUser(0, "Bob1", "bob1@x.io", "B@y.com")
	bob.APIKeys[0].Comment, bob.PublicKeys[0].Comment = v.Str("c1", "print", 1, 3), v.Str("c2", "print", 1, 3)
	bob.Title = v.Str("title", "print", 0, 2)
	db := mkDB(p, bob, richUser(1, "alice", "alice@x.io"))
	if v.Choose("saved", 2) == 1 {
		v.Assume(db.Save() == nil)
	}
	switch v.Choose("there", 3) {
	case 1:
		v.WriteFile(c, "{}")
	case 2:
		mkDB(c, richUser(2, "zoe", "zoe@x.io"), richUser(1, "other", "other@x.io"), richUser(0, "third", "third@x.io"))
	}
	before, file := v.Full(db), v.SnapFile(p)
	image := v.Snap(db)
	v.Assert(db.Copy(c) == nil, "a copy succeeds")
	v.Assert(v.Same(before, v.Full(db)), "copying leaves the live database")
	v.Assert(v.Same(file, v.SnapFile(p)), "copying leaves the original file")
	v.Assert(v.Same(image, v.SnapFile(c)), "the copy holds the database")
	v.Assert(db.GetPath() == p, "the live database keeps its path")
	d, err := identity.NewDatabase(c)
	v.Assert(err == nil, "the copy opens")
	if err != nil {
		return
	}
	v.Assert(v.Same(before, v.Full(d)), "the copy opens as the same database")
	v.Assert(v.And(auth(d, "bob1", oldPw), auth(d, "alice@x.io", oldPw), v.Not(auth(d, "bob1", nextPw))), "the copy authenticates the users")
	v.Assert(d.GetPath() == c, "the opened copy has its own path")
	k := v.Choose("op", mutCount)
	m := mkMut(k, "0", nil)
	if v.Choose("side", 2) == 0 {
		err = m.run(db)
		v.Assert(err == nil, "the original can be changed")
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "changes go to the original file")
		v.Assert(v.Same(image, v.SnapFile(c)), "changes do not go to the copy")
	} else {
		err = m.run(d)
		v.Assert(err == nil, "the copy can be changed")
		v.Assert(v.Same(v.Snap(d), v.SnapFile(c)), "changes of the copy go to its file")
		v.Assert(v.And(v.Same(file, v.SnapFile(p)), v.Same(before, v.Full(db))), "changes of the copy do not go to the original")
	}
}

// C30_after: copies taken after a change, and of a copy.
func C30_after() {
	v.Bound("any mutating operation with any arguments, then copying to two places one after the other")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m := mkMut(v.Choose("op", mutCount), "0", symText)
	v.Assume(m.run(db) == nil)
	live := v.Snap(db)
	for _, c := range []string{v.TempPath("a.json"), v.TempPath("b.json")} {
		v.Assert(db.Copy(c) == nil, "a copy succeeds")
		v.Assert(v.And(v.Same(live, v.SnapFile(c)), v.Same(live, v.Snap(reopen(c)))), "the copy holds the changed database")
	}
	v.Assert(v.And(v.Same(live, v.Snap(db)), v.Same(live, v.SnapFile(p)), db.GetPath() == p), "the original is as before")
}

// C30_fault: copies which fail.
func C30_fault() {
	v.Bound("one (thorough: two) file-system faults at any call of the copy, to a new file or over an old one; then any mutating operation and another copy")
	p, c := v.TempPath("db.json"), v.TempPath("copy.json")
	db := twoUsers(p)
	v.Assume(db.Save() == nil)
	over := v.Choose("there", 2) == 1
	if over {
		v.WriteFile(c, "{\"old\": 1}")
	}
	old := v.SnapFile(c)
	before, file := v.Full(db), v.SnapFile(p)
	image := v.Snap(db)
	v.FaultFS(faults(), false)
	err := db.Copy(c)
	v.FaultOff()
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p))), "a copy leaves the original")
	v.Assert(db.GetPath() == p, "a copy leaves the path")
	if err == nil {
		v.Assert(v.Same(image, v.SnapFile(c)), "a copy which succeeds is complete")
	} else {
		v.Cover("failed")
		v.Assert(v.Same(old, v.SnapFile(c)), "a copy which fails leaves what was there")
	}
	m := mkMut(v.Choose("op", mutCount), "0", nil)
	v.Assert(m.run(db) == nil, "the database works afterwards")
	v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "later changes go to the original file")
	v.Assert(db.Copy(c) == nil && v.Same(v.Snap(db), v.SnapFile(c)), "another copy succeeds")
}

// C30_place: places to which nothing can be copied.
func C30_place() {
	v.Bound("copies to a directory, below a file or into a missing directory, or to the empty path, then any mutating operation")
	p, c := v.TempPath("db.json"), v.TempPath("copy")
	db := twoUsers(p)
	v.Assume(db.Save() == nil)
	before, file := v.Full(db), v.SnapFile(p)
	to := c
	switch v.Choose("where", 4) {
	case 0:
		v.Mkdir(c)
	case 1:
		to = c + "/missing/db.json"
	case 2:
		v.WriteFile(c, "x")
		to = c + "/db.json"
	case 3:
		to = ""
	}
	v.Assert(db.Copy(to) != nil, "a copy which cannot be made is reported")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(file, v.SnapFile(p)), db.GetPath() == p), "a failed copy leaves the original and its path")
	m := mkMut(v.Choose("op", mutCount), "0", nil)
	v.Assert(m.run(db) == nil && v.Same(v.Snap(db), v.SnapFile(p)), "later changes go to the original file")
}

// C30_self: a copy over the original file.
func C30_self() {
	v.Bound("copying onto the database's own file, then any mutating operation")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	before, image := v.Full(db), v.Snap(db)
	v.Assert(db.Copy(p) == nil, "a copy over itself succeeds")
	v.Assert(v.And(v.Same(before, v.Full(db)), v.Same(image, v.SnapFile(p))), "a copy over itself leaves the database")
	m := mkMut(v.Choose("op", mutCount), "0", nil)
	v.Assert(m.run(db) == nil && v.Same(v.Snap(db), v.SnapFile(p)), "the database works afterwards")
}
