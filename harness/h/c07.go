package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

func listKeys(db *identity.Database, name, usage string) []*identity.APIKey {
	r := req(name, name+"@x.io")
	r.Key.Usage = usage
	err := db.GetAPIKeys(r)
	b, ok := r.Response.Payload.(*identity.APIKeyBundle)
	v.Assert(err == nil && ok && b.Size() == len(b.Get()), "keys listed")
	return b.Get()
}

// C07_issue: issuing, for any usage and comment.
func C07_issue() {
	v.Bound("usage of 0 or 3-4 and comment of 0-2 arbitrary printable bytes, any flag; three keys present, one issued")
	p := v.TempPath("db.json")
	db, _ := keyDB(p)
	a0, before, file := v.Full(db.Users[1]), v.Full(db), v.SnapFile(p)
	n := len(db.Users[0].APIKeys)
	r := req("bob", "bob@x.io")
	r.Key.Usage, r.Key.Comment = v.Str("usage", "print", 0, 2, 3), v.Str("comment", "print", 0, 1)
	r.Key.Payload, r.Key.Prefix, r.Key.ID = v.Pick("payload", "", "x"), v.Pick("prefix", "", "y"), "zz"
	r.Key.Disabled = v.Bool("disabled")
	dis := r.Key.Disabled
	usage, comment := r.Key.Usage, r.Key.Comment
	err := db.AddAPIKey(r)
	v.Assert(v.Iff(err == nil, v.And(usage == "api", comment != "")), "issued exactly with the api usage and a comment")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep their keys")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "refused issue changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "refused issue leaves the file")
		return
	}
	v.Cover("issued")
	s, ok := r.Response.Payload.(string)
	v.Assert(ok && len(s) >= 72 && len(s) <= 96 && allIn(s, "alnum"), "a key of the promised form")
	ks := db.Users[0].APIKeys
	v.Assert(len(ks) == n+1, "one key is added")
	k := ks[n]
	v.Assert(v.And(k.Usage == "api", k.Comment == comment, v.Iff(k.Disabled, dis), v.Not(k.Expired), k.Prefix == s[:24], len(k.ID) == 40), "the key's record")
	v.Assert(k.Payload != s && !v.Has(v.Snap(db), s), "only the hash is stored")
	v.Assert(unique(db), "prefixes stay distinct")
	for _, d := range []*identity.Database{db, reopen(p)} {
		q, err := lookup(d, s)
		v.Assert(v.Iff(err == nil, v.Not(dis)), "the owner can use the key, unless issued as disabled")
		v.Assert(err != nil || q.User.Username == "bob", "the key names its owner")
		found := false
		for _, w := range listKeys(d, "bob", "api") {
			found = v.Or(found, w.ID == k.ID)
		}
		v.Assert(v.Iff(found, v.Not(dis)), "the key is listed, unless issued as disabled")
	}
}

// C07_list: listings by any usage under any flags.
func C07_list() {
	v.Bound("three keys of arbitrary 3-byte usage and flags; any requested usage of 0, 3 or 4 printable bytes")
	p := v.TempPath("db.json")
	bob := mkUser(0, "bob", v.Hash(oldPw), "bob@x.io")
	for i := 0; i < 3; i++ {
		t := apiText(0, i)
		k := &identity.APIKey{ID: "k" + string(rune('0'+i)), Prefix: t[:24], Usage: v.Str("usage", "print", 3), Comment: "c", Payload: "h", CreatedAt: t0}
		k.Disabled, k.Expired = v.Bool("disabled"), v.Bool("expired")
		bob.APIKeys = append(bob.APIKeys, k)
	}
	t := apiText(1, 0)
	alice := mkUser(1, "alice", v.Hash(oldPw), "alice@x.io")
	alice.APIKeys = []*identity.APIKey{{ID: "k9", Prefix: t[:24], Usage: "api", Comment: "c", Payload: "h", CreatedAt: t0}}
	db := mkDB(p, bob, alice)
	want := v.Str("want", "print", 0, 3, 4)
	before := v.Full(db)
	got := listKeys(db, "bob", want)
	n := 0
	for _, k := range db.Users[0].APIKeys {
		in := false
		for _, g := range got {
			in = in || g == k
		}
		v.Assert(v.Iff(in, v.And(k.Usage == want, v.Not(k.Disabled))), "exactly the enabled keys of the usage are listed")
		if in {
			n++
		}
	}
	v.Assert(len(got) == n, "nothing else is listed")
	v.Assert(v.Same(before, v.Full(db)), "listing changes nothing")
}

// C07_delete: deletion by any ID.
func C07_delete() {
	v.Bound("three keys with arbitrary 2-byte IDs, one of them with any flags; deletion by any ID of 0, 2-3 or 24 printable bytes")
	p := v.TempPath("db.json")
	bob := mkUser(0, "bob", v.Hash(oldPw), "bob@x.io")
	off := v.Choose("off", 3)
	var ts, ids []string
	for i := 0; i < 3; i++ {
		t := apiText(0, i)
		id := v.Str("kid", "graph", 2)
		ts, ids = append(ts, t), append(ids, id)
		bob.APIKeys = append(bob.APIKeys, &identity.APIKey{ID: id, Prefix: t[:24], Usage: "api", Comment: "c" + string(rune('0'+i)), Payload: v.Hash(t), CreatedAt: t0})
	}
	bob.APIKeys[off].Disabled, bob.APIKeys[off].Expired = v.Bool("disabled"), v.Bool("expired")
	v.Assume(v.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
	alice := mkUser(1, "alice", v.Hash(oldPw), "alice@x.io")
	t := apiText(1, 0)
	alice.APIKeys = []*identity.APIKey{{ID: "ak", Prefix: t[:24], Usage: "api", Comment: "c", Payload: v.Hash(t), CreatedAt: t0}}
	db := mkDB(p, bob, alice)
	id := v.Str("id", "print", 0, 2, 3, 24)
	r := req("bob", "bob@x.io")
	r.Key.ID = id
	r.Key.Prefix = v.Pick("prefix", "", t[:24])
	before, a0, file := v.Full(db), v.Full(db.Users[1]), v.SnapFile(p)
	err := db.DeleteAPIKey(r)
	v.Assert(v.Iff(err == nil, v.Or(id == ids[0], id == ids[1], id == ids[2])), "exactly the user's key IDs can be deleted")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep theirs")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "an unknown ID changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "an unknown ID leaves the file")
	} else {
		v.Cover("deleted")
	}
	for _, d := range []*identity.Database{db, reopen(p)} {
		l := listKeys(d, "bob", "api")
		for i := range ts {
			in := false
			for _, k := range l {
				in = v.Or(in, k.ID == ids[i])
			}
			k := bob.APIKeys[i]
			v.Assert(v.Iff(in, v.And(ids[i] != id, v.Not(k.Disabled))), "exactly that key leaves the listing")
			_, e := lookup(d, ts[i])
			v.Assert(v.Iff(e == nil, v.And(ids[i] != id, v.Not(k.Disabled), v.Not(k.Expired))), "exactly that key leaves the lookup")
			left := false
			for _, k := range d.Users[0].APIKeys {
				left = v.Or(left, k.ID == ids[i])
			}
			v.Assert(v.Iff(left, ids[i] != id), "exactly that key leaves the user's keys")
		}
		_, e := lookup(d, t)
		v.Assert(e == nil, "the other user's key still works")
	}
}

// C07_terminates: generators which repeat themselves.
func C07_terminates() {
	v.Bound("the generator yields the same key 1-3 times in a row; two issues")
	db := mkDB(v.TempPath("db.json"), mkUser(0, "bob", v.Hash("pw"), "bob@x.io"))
	n := v.Int("repeats", 1, 3)
	v.RandConst(n * 113)
	var ts []string
	for i := 0; i < 2; i++ {
		r := requests.NewRequest()
		r.User.Username, r.User.Email = "bob", "bob@x.io"
		r.Key.Usage, r.Key.Comment = "api", "c"
		v.Assert(db.AddAPIKey(r) == nil, "issuing terminates with a key")
		s, _ := r.Response.Payload.(string)
		ts = append(ts, s)
	}
	v.Assert(ts[0] != ts[1] && ts[0][:24] != ts[1][:24], "keys are fresh")
}

// C07_taken: prefixes which stored keys of any state hold.
func C07_taken() {
	v.Bound("a key is issued as disabled or not, marked disabled or expired or neither, or deleted, the database reopened or not; then the generator repeats itself once")
	p := v.TempPath("db.json")
	db := mkDB(p, mkUser(0, "bob", v.Hash("pw"), "bob@x.io"), mkUser(1, "alice", v.Hash("pw"), "alice@x.io"))
	issue := func(name string, dis bool) string {
		r := req(name, name+"@x.io")
		r.Key.Usage, r.Key.Comment, r.Key.Disabled = "api", "c", dis
		v.Assert(db.AddAPIKey(r) == nil, "a key is issued")
		s, _ := r.Response.Payload.(string)
		return s
	}
	v.RandConst(113)
	s := issue("bob", v.Choose("issued", 2) == 1)
	gone := v.Choose("gone", 2) == 1
	if gone {
		r := req("bob", "bob@x.io")
		r.Key.ID = db.Users[0].APIKeys[0].ID
		v.Assert(db.DeleteAPIKey(r) == nil, "deleted")
	} else if k := db.Users[0].APIKeys[0]; !k.Disabled {
		k.Disabled, k.Expired = v.Bool("disabled"), v.Bool("expired")
		v.Assume(db.Save() == nil)
	}
	if v.Choose("reopen", 2) == 1 {
		db = reopen(p)
	}
	v.RandConst(113)
	t := issue(v.Pick("who", "bob", "alice"), false)
	v.Assert(gone || t[:24] != s[:24], "no key has the prefix of another")
	v.Assert(unique(db), "prefixes stay distinct")
	for _, d := range []*identity.Database{db, reopen(p)} {
		_, err := lookup(d, t)
		v.Assert(err == nil, "the key can be used")
	}
	v.RandFresh()
}
