package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

const others = 0077

// anyMode: any permissions under which the owner can read and write.
func anyMode(name string) int { return 0600 | v.Int(name, 0, 0777) }

// umask: any which leaves the owner's bits.
func umask() { v.Umask(v.Int("umask", 0, 0777) & others) }

// C34_created: files and directories which come into being.
func C34_created() {
	v.Bound("a database created in a directory which exists or not (up to three levels missing), any mutating operation on it, a copy; any umask which leaves the owner's bits; one (thorough: two) faults or none")
	top := v.TempPath("top")
	v.Mkdir(top)
	dir := top + []string{"", "/a", "/a/b/c"}[v.Choose("deep", 3)]
	p := dir + "/db.json"
	umask()
	fault := v.Bool("fault")
	if fault {
		v.FaultFS(faults(), false)
	}
	db, err := identity.NewDatabase(p)
	if err == nil {
		if k := v.Choose("op", 3); k == 0 {
			err = db.AddUser(newUser("zoe", goodPw, "zoe@x.io"))
		} else if k == 1 {
			db.Save()
		}
		db.Copy(dir + "/copy.json")
	}
	v.FaultOff()
	v.Assert(v.Widest(top)&others == 0, "whatever is created is its owner's only")
	if err == nil && !fault {
		v.Cover("created")
		v.Assert(v.FileMode(p) == 0600 && v.FileMode(dir+"/copy.json") == 0600, "files are readable and writable by the owner")
		v.Assert(dir == top || v.FileMode(dir) == 0700, "directories are the owner's")
	}
}

// C34_kept: files which are there.
func C34_kept() {
	v.Bound("a database file, and a file in the place of its copy, of any mode under which the owner reads and writes, any umask which leaves the owner's bits; every mutating operation, with or without a fault")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	m, k := anyMode("mode"), v.Choose("op", mutCount+2)
	umask()
	v.Chmod(p, m)
	cm := 0600
	if k == mutCount+1 {
		cm = anyMode("copy-mode")
		v.WriteFile(p+".copy", "{}")
		v.Chmod(p+".copy", cm)
	}
	fault := v.Bool("fault")
	if fault {
		v.FaultFS(1, false)
	}
	switch {
	case k < mutCount:
		mkMut(k, "0", nil).run(db)
	default:
		db.Copy(p + ".copy")
	}
	v.FaultOff()
	v.Assert(v.FileMode(p) == m, "the file keeps its permissions")
	if k >= mutCount {
		c := v.FileMode(p + ".copy")
		v.Assert(c == cm || c == -1 && k == mutCount, "a copy has the permissions of the file it replaces, or the owner's")
	}
	v.Chmod(p, 0600)
	if k < mutCount {
		v.Assert(v.Widest(p[:len(p)-8])&others == 0, "nothing else is left for others")
	}
	d := reopen(p)
	v.Assert(d.GetUserCount() >= 2, "opens")
	v.Assert(v.FileMode(p) == 0600, "opening keeps the permissions")
}

// C34_crash: nothing is open to others at any moment.
func C34_crash() {
	v.Bound("the process stopping at any file-system step of creating a database, of any mutating operation on it or of a copy; any umask which leaves the owner's bits")
	top := v.TempPath("top")
	v.Mkdir(top)
	p := top + "/sub/db.json"
	umask()
	crash := func(f func()) {
		v.FaultFS(1, true)
		v.Crashable(f)
		v.FaultOff()
		v.Assert(v.Widest(top)&others == 0, "nothing is open to others at any moment")
	}
	k := v.Choose("op", mutCount+2)
	if k == mutCount+1 {
		crash(func() { identity.NewDatabase(p) })
		return
	}
	v.Mkdir(top + "/sub")
	db := twoUsers(p)
	if k == mutCount {
		crash(func() { db.Copy(p + ".copy") })
		return
	}
	m := mkMut(k, "0", nil)
	crash(func() { m.run(db) })
}
