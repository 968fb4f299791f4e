package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// jn is a part of a database document.
type jn struct {
	key  string
	kind byte // s, n, b, t(ime), a, o
	text string
	kids []jn
	req  bool // may be neither absent, null nor empty
	item bool // may not be null
}

func js(key, text string) jn       { return jn{key: key, kind: 's', text: "\"" + text + "\""} }
func jt(key string) jn             { return jn{key: key, kind: 't', text: "\"2020-01-02T03:04:05Z\""} }
func jnum(key, text string) jn     { return jn{key: key, kind: 'n', text: text} }
func jb(key, text string) jn       { return jn{key: key, kind: 'b', text: text} }
func jo(key string, kids ...jn) jn { return jn{key: key, kind: 'o', kids: kids} }
func ja(key string, kids ...jn) jn {
	for i := range kids {
		kids[i].item = true
	}
	return jn{key: key, kind: 'a', kids: kids}
}

func must(n jn) jn { n.req = true; return n }

// dbDoc is a database of one user with one of everything.
func dbDoc() jn {
	return jo("",
		js("version", "1.1.6"),
		jo("policy",
			jo("user", jnum("min_length", "3"), jnum("max_length", "50"), jb("allow_uppercase", "false")),
			jo("password", jnum("keep_versions", "10"), jnum("min_length", "8"), jnum("max_length", "128"), jb("require_number", "true"))),
		jnum("revision", "7"),
		jt("last_modified"),
		ja("users", jo("",
			must(js("id", uids[0])),
			jb("enabled", "true"),
			must(js("username", "bob1")),
			js("title", "Dr"),
			jo("name", js("first", "Bob"), js("last", "One")),
			ja("names", jo("", js("first", "Bob"), js("last", "One"))),
			jo("email_address", js("address", "bob1@x.io"), js("domain", "x.io")),
			ja("email_addresses", jo("", js("address", "bob1@x.io"), js("domain", "x.io"))),
			must(ja("passwords", must(jo("", js("purpose", "generic"), js("algorithm", "bcrypt"), js("hash", "h"), jnum("cost", "10"), jb("disabled", "false"), jt("created_at"))))),
			ja("public_keys", jo("", js("id", "p1"), js("usage", "ssh"), js("openssh", "o"), jb("expired", "false"))),
			ja("api_keys", jo("", js("id", "a1"), js("prefix", "pre"), js("usage", "api"), js("payload", "h"))),
			ja("mfa_tokens", jo("", js("id", "m1"), js("type", "totp"), js("secret", "s3cret"), jnum("period", "30"), jnum("digits", "6"),
				jo("parameters", js("k", "x")), jo("flags", jb("f", "true")))),
			ja("roles", jo("", js("name", "admin"), js("organization", "org"))),
			jo("avatar", js("path", "x")),
			jo("lockout", jb("enabled", "true"), jt("start_time"), jt("end_time")),
			jt("created"),
			jnum("revision", "3"))))
}

// size counts the parts of a document.
func (n jn) size() int {
	c := 1
	for _, k := range n.kids {
		c += k.size()
	}
	return c
}

// part is the i-th part of a document.
func (n jn) part(i int) *jn {
	if i == 0 {
		return &n
	}
	i--
	for j := range n.kids {
		s := n.kids[j].size()
		if i < s {
			return n.kids[j].part(i)
		}
		i -= s
	}
	return nil
}

// with renders the document with its i-th part replaced, or left out.
func (n jn) with(i int, text string) string {
	if i == 0 {
		return text
	}
	i--
	s := n.text
	if n.kind == 'o' || n.kind == 'a' {
		s = "{"
		if n.kind == 'a' {
			s = "["
		}
		first := true
		for j := range n.kids {
			k := n.kids[j]
			z := k.size()
			t := k.with(i, text)
			i -= z
			if t == "" {
				continue
			}
			if !first {
				s += ","
			}
			first = false
			if n.kind == 'o' {
				s += "\"" + k.key + "\":"
			}
			s += t
		}
		if n.kind == 'a' {
			s += "]"
		} else {
			s += "}"
		}
	}
	return s
}

// opens opens the file and checks what must hold whatever it contains.
func opens(p string) (*identity.Database, error) {
	old, ok := v.ReadFile(p)
	db, err := identity.NewDatabase(p)
	v.Assert(v.Iff(err == nil, db != nil), "opening gives a database or an error")
	if err != nil && ok {
		now, _ := v.ReadFile(p)
		v.Assert(now == old, "a file which is refused stays as it is")
	}
	return db, err
}

// C29_shape: documents with a part absent, null or of another type.
func C29_shape() {
	v.Bound("a document with one of every kind of record, with any one part (of 85) left out, null, false, a number (small, negative, fractional, large), a text (plain, a time), an empty or other array or object; the opened database serves every operation")
	d := dbDoc()
	i := v.Choose("part", d.size())
	repl := []string{"", "null", "false", "5", "-1", "1.5", "99999999999999999999", "\"text\"", "\"\"", "\"2021-01-02T03:04:05Z\"", "[]", "{}", "[null]", "[[]]", "[{}]", "{\"x\":null}"}
	k := v.Choose("as", len(repl))
	n := d.part(i)
	text := d.with(i, repl[k])
	p := v.TempPath("db.json")
	v.WriteFile(p, text)
	db, err := opens(p)
	r := repl[k]
	valid := true
	switch r {
	case "":
		valid = !n.req && i > 0
	case "null":
		valid = !n.req && !(n.item && n.key == "" && n.kind == 'o')
	case "false":
		valid = n.kind == 'b'
	case "5":
		valid = n.kind == 'n'
	case "-1":
		valid = n.kind == 'n' && !(i > 0 && n.key == "revision" && n.text == "7")
	case "1.5", "99999999999999999999":
		valid = false
	case "\"text\"":
		valid = n.kind == 's' && n.key != "id" || n.key == "id" && !n.req
	case "\"\"":
		valid = n.kind == 's' && !n.req
	case "\"2021-01-02T03:04:05Z\"":
		valid = n.kind == 't' || n.kind == 's' && !(n.key == "id" && n.req)
	case "[]":
		valid = n.kind == 'a' && !n.req
	case "{}":
		valid = n.kind == 'o' && !(n.item && hasKey(n, "username"))
	case "[null]":
		valid = false
	case "[[]]":
		valid = false
	case "[{}]":
		valid = n.kind == 'a' && n.key != "users"
	case "{\"x\":null}":
		valid = n.kind == 'o' && !(n.item && hasKey(n, "username"))
	}
	if i == 0 && r == "null" {
		// neither a database nor not one
		return
	}
	v.Assert(v.Iff(err == nil, valid), "a file opens exactly when it holds a valid database")
	if err != nil {
		v.Cover("refused")
		return
	}
	v.Cover("opened")
	users := 1
	if n.key == "users" || i == 0 || hasKey(n, "username") {
		users = 0
	}
	v.Assert(db.GetUserCount() == users, "the opened database has the users of the file")
	if users == 1 {
		u := db.Users[0]
		use(db, u.Username)
	}
}

func hasKey(n *jn, key string) bool {
	for _, k := range n.kids {
		if k.key == key {
			return true
		}
	}
	return false
}

// use runs every operation; none may panic.
func use(db *identity.Database, name string) {
	for _, o := range ops {
		r := req(name, "bob1@x.io")
		o.prep(r)
		o.run(db, r)
	}
	r := req(name, "")
	r.Flags.Enabled = true
	db.IdentifyUser(r)
	auth(db, name, oldPw)
	r = requests.NewRequest()
	r.Key.Payload = apiText(0, 0)
	db.LookupAPIKey(r)
	db.AddUser(newUser("zoe", goodPw, "zoe@x.io"))
	r = req(name, "bob1@x.io")
	r.WebAuthn.Request = "e30="
	db.AuthenticateUser(r)
	db.Copy(v.TempPath("copy.json"))
	db.Save()
}

// C29_users: records which are invalid or duplicates.
func C29_users() {
	v.Bound("two users; any username of 0-2 (thorough: 0-4), ID of 35-37, address of 5 and API key prefix of 0-2 printable bytes of the second, the first ones fixed; no passwords")
	p := v.TempPath("db.json")
	a, b := richUser(0, "b1", "a@b.c", "q@x.y"), richUser(1, "xx", "d@e.f", "g@h.i")
	a.APIKeys[0].Prefix = "k1"
	ok := true
	lens := []int{0, 1, 2}
	if v.Thorough() {
		lens = []int{0, 1, 2, 3, 4}
	}
	switch v.Choose("what", 6) {
	case 0:
		b.Username = v.Str("name", "print", lens...)
		ok = v.And(b.Username != "", v.Not(fold(b.Username, "b1")))
	case 1:
		b.ID = v.Str("id", "uuid", 0, 35, 36, 37)
		ok = v.And(len(b.ID) == 36, b.ID != a.ID)
	case 2:
		t := v.Str("mail", "print", 5)
		b.EmailAddresses[1].Address = t
		ok = v.Not(v.Or(fold(t, "a@b.c"), fold(t, "q@x.y"), fold(t, "d@e.f")))
	case 3:
		b.APIKeys[0].Prefix = v.Str("prefix", "print", lens...)
		ok = b.APIKeys[0].Prefix != "k1"
	case 4:
		b.Passwords = nil
		ok = false
	case 5:
		k := *b.APIKeys[0]
		k.ID, k.Prefix = "second", v.Str("prefix", "print", lens...)
		b.APIKeys = append(b.APIKeys, &k)
		ok = v.And(k.Prefix != "k1", k.Prefix != b.APIKeys[0].Prefix)
	}
	users := []*identity.User{a, b}
	if v.Choose("order", 2) == 1 {
		users = []*identity.User{b, a}
	}
	v.WriteJSON(p, &identity.Database{Policy: identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128}},
		Revision: 7, LastModified: t0, Users: users})
	file := v.SnapFile(p)
	db, err := identity.NewDatabase(p)
	v.Assert(v.Iff(err == nil, ok), "a file opens exactly when its users are valid and distinct")
	v.Assert(v.Same(file, v.SnapFile(p)), "opening leaves the file")
	if err == nil {
		v.Assert(v.And(db.GetUserCount() == 2, auth(db, users[0].Username, oldPw), auth(db, users[1].Username, oldPw)), "the users are loaded")
	}
}

// C29_policy: files without some limits.
func C29_policy() {
	v.Bound("every combination of unset limits; invalid users or not")
	p := v.TempPath("db.json")
	pol := identity.Policy{}
	set := func(n string, f *int) {
		if v.Bool(n) {
			*f = v.Int(n+"-limit", 1, 1<<20)
		}
	}
	set("umin", &pol.User.MinLength)
	set("umax", &pol.User.MaxLength)
	set("pmin", &pol.Password.MinLength)
	set("pmax", &pol.Password.MaxLength)
	set("keep", &pol.Password.KeepVersions)
	bad := v.Bool("bad")
	u := richUser(0, "bob1", "bob1@x.io")
	if bad {
		u.Username = ""
	}
	v.WriteJSON(p, &identity.Database{Policy: pol, Revision: 7, LastModified: t0, Users: []*identity.User{u}})
	file := v.SnapFile(p)
	db, err := identity.NewDatabase(p)
	v.Assert(v.Iff(err == nil, v.Not(bad)), "a file opens exactly when its users are valid")
	if err != nil {
		v.Assert(v.Same(file, v.SnapFile(p)), "a file which is refused stays as it is")
		return
	}
	q := db.Policy
	keep := func(old, now int) bool { return v.Or(v.And(old == 0, now >= 1), v.And(old != 0, now == old)) }
	v.Assert(v.And(keep(pol.User.MinLength, q.User.MinLength), keep(pol.User.MaxLength, q.User.MaxLength), keep(pol.Password.MinLength, q.Password.MinLength),
		keep(pol.Password.MaxLength, q.Password.MaxLength), keep(pol.Password.KeepVersions, q.Password.KeepVersions)), "limits are filled in only where unset")
	v.Assert(v.And(q.User.MinLength > 0, q.Password.MinLength > 0), "limits are filled in")
	full := v.And(pol.User.MinLength != 0, pol.User.MaxLength != 0, pol.Password.MinLength != 0, pol.Password.MaxLength != 0, pol.Password.KeepVersions != 0)
	if full {
		v.Assert(v.Same(file, v.SnapFile(p)), "opening a complete file leaves it")
	} else {
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the limits filled in are saved")
	}
	v.Assert(v.Same(v.Snap(db.Users), v.Snap([]*identity.User{u})), "the users are loaded")
}

// C29_text: contents which are no JSON documents.
func C29_text() {
	v.Bound("every proper prefix of a database document (to a multiple of 7, or within 40 bytes of an end; thorough: every length), followed by nothing or a stray byte; a catalogue of other texts")
	p := v.TempPath("db.json")
	d := dbDoc()
	all := d.with(1<<20, "")
	n := len(all)
	if v.Choose("what", 2) == 0 {
		cat := []string{"", " ", "\n", "[]", "1", "\"x\"", "true", "{", "}", "{}{}", "{} x", all + all, all + "}", "\x00", "\xef\xbb\xbf" + all, "{\"users\":[{}]}", "{\"users\":{}}", "{'a':1}", "// x", "{\"users\": [,]}", all[1:]}
		v.WriteFile(p, cat[v.Choose("text", len(cat))])
		_, err := opens(p)
		v.Assert(err != nil, "a text which is no database is refused")
		return
	}
	cut := v.Choose("cut", n)
	if !v.Thorough() {
		v.Assume(cut%7 == 0 || cut < 40 || cut > n-40)
	}
	tail := []string{"", "x", "]"}[v.Choose("tail", 3)]

	v.WriteFile(p, all[:cut]+tail)
	_, err := opens(p)
	v.Assert(err != nil, "a damaged file is refused")
}

// C29_place: paths without a file.
func C29_place() {
	v.Bound("a missing file, directory or both; a directory in its place; a file in the place of its directory; the empty path; paths below the home directory, literally")
	dir := v.TempPath("sub")
	p := dir + "/db.json"
	good := true
	switch v.Choose("place", 6) {
	case 0:
		v.Mkdir(dir)
	case 1:
	case 2:
		p = dir + "/a/b/c/db.json"
	case 3:
		v.Mkdir(dir)
		v.Mkdir(p)
		good = false
	case 4:
		v.WriteFile(dir, "x")
		good = false
	case 5:
		p = ""
		good = false
	}
	db, err := opens(p)
	v.Assert(v.Iff(err == nil, good), "a database is created exactly when nothing is in the way")
	if err != nil {
		return
	}
	v.Assert(v.And(db.GetUserCount() == 0, db.GetPath() == p, v.Same(v.Snap(db), v.SnapFile(p))), "a created database is empty and saved")
	v.Assert(v.And(db.Policy.User.MinLength > 0, db.Policy.Password.MinLength > 0, db.Policy.Password.KeepVersions > 0), "a created database has limits")
	v.Assert(db.AddUser(newUser("zoe", goodPw, "zoe@x.io")) == nil, "users can be added to it")
	d := reopen(p)
	v.Assert(v.And(d.GetUserCount() == 1, auth(d, "zoe", goodPw)), "a created database can be reopened")
}

// C29_fault: I/O faults while opening.
func C29_fault() {
	v.Bound("one (thorough: two) faults at any file-system call while opening a complete file, one without limits, an invalid one, or none")
	p := v.TempPath("db.json")
	k := v.Choose("file", 4)
	u := richUser(0, "bob1", "bob1@x.io")
	pol := identity.Policy{User: identity.UserPolicy{MinLength: 3, MaxLength: 50}, Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128}}
	switch k {
	case 1:
		pol = identity.Policy{}
	case 2:
		u.Username = ""
	}
	if k < 3 {
		v.WriteJSON(p, &identity.Database{Policy: pol, Revision: 7, LastModified: t0, Users: []*identity.User{u}})
	}
	old := v.SnapFile(p)
	v.FaultFS(faults(), false)
	db, err := identity.NewDatabase(p)
	v.FaultOff()
	v.Assert(v.Iff(err == nil, db != nil), "opening gives a database or an error")
	if err != nil {
		v.Cover("refused")
		v.Assert(v.Same(old, v.SnapFile(p)), "a file which is refused stays as it is")
		d, e := identity.NewDatabase(p)
		v.Assert(v.Iff(e == nil, k != 2), "it opens when tried again")
		if e == nil && k < 2 {
			v.Assert(d.GetUserCount() == 1, "with its users")
		}
		return
	}
	if k < 2 {
		v.Assert(db.GetUserCount() == 1, "an opened file has its users")
	} else {
		v.Assert(k == 3 && db.GetUserCount() == 0, "an invalid file is refused")
	}
}
