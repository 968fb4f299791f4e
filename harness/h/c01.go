package h

import (
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// unique states that no two users of the database share a username, ID,
// e-mail address or API-key prefix.
func unique(db *identity.Database) bool {
	ok := true
	for i, a := range db.Users {
		for j, b := range db.Users {
			if i >= j {
				continue
			}
			ok = v.And(ok, v.Not(fold(a.Username, b.Username)), a.ID != b.ID)
			for _, x := range a.EmailAddresses {
				for _, y := range b.EmailAddresses {
					ok = v.And(ok, v.Not(fold(x.Address, y.Address)))
				}
			}
			for _, x := range a.APIKeys {
				for _, y := range b.APIKeys {
					ok = v.And(ok, x.Prefix != y.Prefix)
				}
			}
		}
	}
	return ok
}

func newUser(name, pw, email string) *requests.Request {
	r := requests.NewRequest()
	r.User.Username = name
	r.User.Password = pw
	r.User.Email = email
	return r
}

const goodPw = "Secret-12"

// C01_add: additions in sequence to a database with users of mixed case.
func C01_add() {
	v.Bound("two additions to a two-user database; names of 3-4 bytes of printable ASCII; e-mail local parts of 1-2 letters or digits at x.io, X.io or y.com")
	p := v.TempPath("db.json")
	bob := mkUser(0, "Bob", v.Hash("pw-of-bob"), "bOb@X.io", "b2@y.com")
	al := mkUser(1, "aLic", v.Hash("pw-of-al"), "a@x.io")
	db := mkDB(p, bob, al)
	for k := 0; k < 2; k++ {
		n := "zoe" + string(rune('0'+k))
		lens := []int{1, 2, 3}
		if k == 1 {
			lens = []int{3}
		}
		e := v.Str("local", "alnum", lens...) + v.Pick("domain", "@x.io", "@X.io", "@y.com")
		if v.Choose("by", 2) == 0 {
			n = v.Str("name", "print", 3, 4)
			e = n[:0] + "q" + string(rune('0'+k)) + "@x.io"
		}
		clash := false
		for _, u := range db.Users {
			clash = v.Or(clash, fold(u.Username, n))
			for _, m := range u.EmailAddresses {
				clash = v.Or(clash, fold(m.Address, e))
			}
		}
		err := db.AddUser(newUser(n, goodPw, e))
		v.Assert(v.Iff(err != nil, clash), "an addition is refused exactly when it clashes")
		v.Assert(unique(db), "users stay distinct")
		if err == nil {
			v.Cover("added")
		} else {
			v.Cover("refused")
		}
	}
}

// C01_unicode: names whose case folding is not ASCII.
func C01_unicode() {
	v.Bound("pairs from a fixed catalogue of non-ASCII names")
	names := []string{"\u00c9ve", "\u00e9ve", "\u212aim", "kim", "STRASSE", "stra\u00dfe", "\u0130pek", "ipek"}
	a, b := names[v.Choose("a", len(names))], names[v.Choose("b", len(names))]
	db := mkDB(v.TempPath("db.json"), mkUser(0, a, v.Hash("pw"), "a@x.io"))
	err := db.AddUser(newUser(b, goodPw, "b@x.io"))
	v.Assert((err != nil) == (strings.ToLower(a) == strings.ToLower(b)), "non-ASCII names clash by their lower-case form")
	v.Assert(unique(db), "non-ASCII users stay distinct")
}

// C01_id: user IDs drawn by the generator which are taken already.
func C01_id() {
	v.Bound("0-24 successive generated IDs equal to an existing user's")
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash("pw"), "bob@x.io"), mkUser(1, "alice", v.Hash("pw"), "alice@x.io"))
	n := v.Choose("collisions", 25)
	for i := 0; i < n; i++ {
		u := []byte{0, 0, 0, 0, 0, 0, 0x40, 0, 0x80, 0, 0, 0, 0, 0, 0, byte(1 + i%2)}
		v.NextUUID(u)
	}
	err := db.AddUser(newUser("zoe", goodPw, "zoe@x.io"))
	v.Assert(unique(db), "IDs stay distinct")
	v.Assert(err == nil || n >= 10, "a few collisions do not hinder an addition")
	v.Assert((err == nil) == (len(db.Users) == 3), "user present exactly when accepted")
}

// C01_idsym: arbitrary ID bytes.
func C01_idsym() {
	v.Bound("twelve generated IDs with one arbitrary byte each")
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash("pw"), "bob@x.io"), mkUser(1, "alice", v.Hash("pw"), "alice@x.io"))
	b := v.Byte("low")
	for i := 0; i < 12; i++ {
		v.NextUUID([]byte{0, 0, 0, 0, 0, 0, 0x40, 0, 0x80, 0, 0, 0, 0, 0, 0, b})
	}
	db.AddUser(newUser("zoe", goodPw, "zoe@x.io"))
	v.Assert(unique(db), "IDs stay distinct whatever is drawn")
}

// C01_file: files holding two or three users.
func C01_file() {
	v.Bound("a file of two users with arbitrary names of 1-2 and e-mails of 1-3 printable characters, IDs differing in one character, key prefixes of 2 bytes with any flags")
	p := v.TempPath("db.json")
	a := mkUser(0, "bob", v.Hash("pw"), "bob@x.io", "b2@x.io")
	b := mkUser(1, "eve", v.Hash("pw"), "eve@x.io")
	c := mkUser(2, "zed", v.Hash("pw"), "zed@x.io")
	clash := false
	switch v.Choose("what", 5) {
	case 0:
		a.Username, b.Username = v.Str("n1", "print", 1, 2), v.Str("n2", "print", 1, 2)
		clash = fold(a.Username, b.Username)
	case 1:
		m := v.Str("m", "print", 7)
		b.EmailAddresses = append(b.EmailAddresses, mkMail(m))
		clash = v.Or(fold(m, "b2@x.io"), fold(m, "zed@x.io"), fold(m, "bob@x.io"))
		// an address listed twice for one user may be refused as well
		v.Assume(v.Not(fold(m, "eve@x.io")))
	case 2:
		id := v.Str("id", "lalnum", 1)
		b.ID = b.ID[:35] + id
		clash = v.Or(id == "1", id == "3")
	case 3:
		x, y := v.Str("p1", "graph", 2), v.Str("p2", "graph", 2)
		a.APIKeys = []*identity.APIKey{{ID: "k1", Prefix: x, Usage: "api", Comment: "c", Payload: "h", CreatedAt: t0}}
		c.APIKeys = []*identity.APIKey{{ID: "k2", Prefix: y, Usage: "api", Comment: "c", Payload: "h", CreatedAt: t0}}
		for _, k := range []*identity.APIKey{a.APIKeys[0], c.APIKeys[0]} {
			k.Disabled, k.Expired = v.Bool("disabled"), v.Bool("expired")
		}
		clash = x == y
	case 4:
		c.Username = v.Str("n3", "alnum", 3)
		clash = v.Or(fold(c.Username, "bob"), fold(c.Username, "eve"))
	}
	v.WriteJSON(p, &identity.Database{Revision: 7, LastModified: t0, Users: []*identity.User{a, b, c}})
	db, err := identity.NewDatabase(p)
	v.Assert(v.Iff(err != nil, clash), "a file is refused exactly when users clash")
	if err == nil {
		v.Assert(unique(db), "users of an opened file are distinct")
		v.Cover("opened")
	}
}

// C01_prefix: API-key prefixes drawn by the generator which are taken.
func C01_prefix() {
	v.Bound("two keys of different users, each issued as disabled or not, with a repeating generator")
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash("pw"), "bob@x.io"), mkUser(1, "alice", v.Hash("pw"), "alice@x.io"))
	v.RandConst(73 * 2)
	for _, n := range []string{"bob", "alice"} {
		r := req(n, n+"@x.io")
		r.Key.Usage, r.Key.Comment = "api", "k"
		r.Key.Disabled = v.Bool("disabled")
		err := db.AddAPIKey(r)
		v.Assert(unique(db), "prefixes stay distinct")
		v.Assert(err == nil, "a key is issued in spite of a collision")
		v.Note("err", errText(err))
	}
}
