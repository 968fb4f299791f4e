package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

type issued struct {
	text     string
	owner    int
	disabled bool
	expired  bool
}

// keyDB is a database of two users with two API keys each, with arbitrary
// flags on those of the first.
func keyDB(p string) (*identity.Database, []issued) {
	var is []issued
	us := []*identity.User{mkUser(0, "bob", v.Hash(oldPw), "bob@x.io", "b2@x.io"), mkUser(1, "alice", v.Hash(oldPw), "alice@x.io")}
	for i, u := range us {
		for j := 0; j < 2; j++ {
			t := apiText(i, j)
			if j == 1 {
				t += "0123456789abc"
			}
			k := &identity.APIKey{ID: "k" + t[1:3], Prefix: t[:24], Usage: "api", Comment: "c", Payload: v.Hash(t), CreatedAt: t0}
			if i == 0 {
				k.Disabled, k.Expired = v.Bool("disabled"), v.Bool("expired")
				// the flags count, not the times
				far := t0.AddDate(900, 0, 0)
				k.DisabledAt, k.ExpiredAt = []time.Time{far, {}}[j], []time.Time{{}, far}[j]
			} else {
				k.Usage, k.Comment = []string{"", "other"}[j], ""
			}
			u.APIKeys = append(u.APIKeys, k)
			is = append(is, issued{t, i, k.Disabled, k.Expired})
		}
	}
	return mkDB(p, us...), is
}

func lookup(db *identity.Database, text string) (*requests.Request, error) {
	r := requests.NewRequest()
	r.Key.Payload = text
	err := db.LookupAPIKey(r)
	return r, err
}

// checkLookup decides a lookup against the keys issued.
func checkLookup(db *identity.Database, is []issued, text string) {
	before := v.Full(db)
	r, err := lookup(db, text)
	var want, a, b, near bool
	for _, k := range is {
		if len(text) >= 72 {
			near = v.Or(near, v.And(text[:72] == k.text[:72], text != k.text))
		}
		m := v.And(k.text == text, v.Not(k.disabled), v.Not(k.expired))
		want = v.Or(want, m)
		if k.owner == 0 {
			a = v.Or(a, m)
		} else {
			b = v.Or(b, m)
		}
	}
	v.Known("exactly the active keys are found", "bcrypt-72", near, v.Iff(err == nil, want))
	v.Assert(v.Same(before, v.Full(db)), "a lookup changes nothing")
	if err == nil {
		v.Cover("found")
		v.Assert(r.Response.Code == 200, "code 200")
		v.Assert(v.Implies(a, v.And(r.User.Username == "bob", r.User.Email == "bob@x.io")), "the owner is named (first)")
		v.Assert(v.Implies(b, v.And(r.User.Username == "alice", r.User.Email == "alice@x.io")), "the owner is named (second)")
	} else {
		v.Cover("refused")
		v.Assert(r.Response.Code != 200, "no success code")
		v.Assert(r.User.Username == "" && r.User.Email == "", "nobody is identified")
	}
}

// C06_any: any text at all.
func C06_any() {
	v.Bound("every text of 0, 1, 23-25, 71-74 and 79 arbitrary bytes (thorough: also 85 and 96); four issued keys with arbitrary flags")
	db, is := keyDB(v.TempPath("db.json"))
	lens := []int{0, 1, 24, 71, 72, 73, 74, 79}
	if v.Thorough() {
		lens = []int{0, 1, 23, 24, 25, 71, 72, 73, 74, 85, 96}
	}
	checkLookup(db, is, v.Str("text", "any", lens...))
}

// C06_near: issued keys with any two bytes replaced, cut or extended.
func C06_near() {
	v.Bound("each of four issued keys of 72 and 85 bytes with an arbitrary byte at one of nine positions, cut by 0-1 or extended by 0-2 arbitrary bytes")
	db, is := keyDB(v.TempPath("db.json"))
	k := is[v.Choose("key", len(is))]
	pos := []int{0, 1, 23, 24, 25, 40, 70, 71, 72, 84}
	if !v.Thorough() {
		pos = []int{0, 23, 24, 71, 72}
	}
	i := pos[v.Choose("pos", len(pos))]
	t := []byte(k.text)
	v.Assume(i < len(t))
	t[i] = v.Byte("byte")
	switch v.Choose("shape", 3) {
	case 1:
		t = t[:len(t)-1]
	case 2:
		t = append(t, v.Str("tail", "any", 1, 2)...)
	}
	checkLookup(db, is, string(t))
}

// C06_history: keys issued and deleted by the database itself.
func C06_history() {
	v.Bound("two keys issued to each of two users by the database, any one deleted, before and after reopening")
	p := v.TempPath("db.json")
	db := mkDB(p, mkUser(0, "bob", v.Hash(oldPw), "bob@x.io"), mkUser(1, "alice", v.Hash(oldPw), "alice@x.io"))
	var ts []string
	names := []string{"bob", "alice"}
	for i := 0; i < 4; i++ {
		r := req(names[i%2], names[i%2]+"@x.io")
		r.Key.Usage, r.Key.Comment = "api", "c"
		v.Assert(db.AddAPIKey(r) == nil, "issued")
		t, _ := r.Response.Payload.(string)
		ts = append(ts, t)
	}
	del := v.Choose("delete", 5)
	if del < 4 {
		u := db.Users[del%2]
		r := req(u.Username, u.EmailAddresses[0].Address)
		r.Key.ID = u.APIKeys[del/2].ID
		v.Assert(db.DeleteAPIKey(r) == nil, "deleted")
	}
	for _, d := range []*identity.Database{db, reopen(p)} {
		for i, t := range ts {
			r, err := lookup(d, t)
			v.Assert((err == nil) == (i != del), "exactly the remaining keys are found")
			v.Assert(err != nil || r.User.Username == names[i%2], "found for their owner")
			_, err = lookup(d, t[:71])
			v.Assert(err != nil, "a cut key is refused")
			_, err = lookup(d, t[:24]+ts[(i+1)%4][24:72])
			v.Assert(err != nil, "a prefix with another remainder is refused")
		}
	}
}

// C06_owner: what is reported of the owner.
func C06_owner() {
	v.Bound("an owner with 0-2 addresses and another, the same or no separate address, found by a request which carries any 1-2 byte name and address and any code already")
	p := v.TempPath("db.json")
	mails := []string{"bob@x.io", "b2@x.io"}[:v.Choose("mails", 3)]
	u := mkUser(0, "bob", v.Hash(oldPw), mails...)
	switch v.Choose("separate", 3) {
	case 0:
		u.EmailAddress = nil
	case 1:
		u.EmailAddress = mkMail("other@x.io")
	}
	t := apiText(0, 0)
	u.APIKeys = []*identity.APIKey{{ID: "k", Prefix: t[:24], Usage: "api", Comment: "c", Payload: v.Hash(t), CreatedAt: t0}}
	db := mkDB(p, u, mkUser(1, "alice", v.Hash(oldPw), "alice@x.io"))
	r := requests.NewRequest()
	r.Key.Payload, r.Key.Prefix, r.Key.ID = t, "stale", "stale"
	r.User.Username, r.User.Email, r.Response.Code = v.Str("name", "print", 1, 2), v.Str("mail", "print", 1, 2), v.Int("code", 0, 599)
	v.Assert(db.LookupAPIKey(r) == nil, "found")
	want := ""
	if len(mails) > 0 {
		want = mails[0]
	}
	v.Assert(r.Response.Code == 200 && r.User.Username == "bob", "code and owner are reported")
	v.Assert(r.User.Email == want, "the owner's primary address is reported")
}

// C06_prefixes: keys whose prefixes are alike.
func C06_prefixes() {
	v.Bound("three keys of two users whose prefixes agree but for one arbitrary letter or digit at the start or end, with remainders of their own or the same; any such text presented")
	pos, same := []int{0, 11, 23}[v.Choose("pos", 3)], v.Choose("same", 2) == 1
	mk := func(c byte, j int) string {
		t := []byte(apiText(0, j))
		copy(t, apiText(0, 0)[:24])
		t[pos] = c
		return string(t)
	}
	us := []*identity.User{mkUser(0, "bob", v.Hash(oldPw), "bob@x.io"), mkUser(1, "alice", v.Hash(oldPw), "alice@x.io")}
	var is []issued
	for j := 0; j < 3; j++ {
		c := v.Str("c", "alnum", 1)
		for _, k := range is {
			v.Assume(k.text[pos:pos+1] != c)
		}
		n := j
		if same {
			n = 1
		}
		t := mk(c[0], n)
		o := j / 2
		us[o].APIKeys = append(us[o].APIKeys, &identity.APIKey{ID: "k" + string(rune('0'+j)), Prefix: t[:24], Usage: "api", Comment: "c", Payload: v.Hash(t), CreatedAt: t0})
		is = append(is, issued{t, o, false, false})
	}
	db := mkDB(v.TempPath("db.json"), us...)
	n := 1
	if !same {
		n = v.Choose("remainder", 3)
	}
	checkLookup(db, is, mk(v.Str("given", "alnum", 1)[0], n))
}
