package h

import (
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// step is one of two concurrent requests, prepared beforehand: run sends it,
// and answer is what the caller learned from it.
type step struct {
	run    func()
	answer func() int
}

func mark(err error) int {
	if err == nil {
		return 1
	}
	return 0
}

const steps = 20

// mkStep prepares the k-th kind of request.
func mkStep(db *identity.Database, k int, p string) step {
	var err error
	code := func() int { return mark(err) }
	r := req("bob1", "bob1@x.io")
	send := func(f func(*requests.Request) error) step { return step{func() { err = f(r) }, code} }
	switch k {
	case 0:
		r = newUser("zoe", goodPw, "zoe@x.io")
		return send(db.AddUser)
	case 1:
		r = newUser("ZOE", goodPw, "yan@x.io")
		return send(db.AddUser)
	case 2:
		r = newUser("yan", goodPw, "Zoe@x.io")
		return send(db.AddUser)
	case 3, 4:
		r.User.OldPassword, r.User.Password = oldPw, []string{nextPw, goodPw}[k-3]
		return send(db.ChangeUserPassword)
	case 5:
		r = req("alice", "alice@x.io")
		ops[6].prep(r)
		return send(db.ChangeUserPassword)
	case 6, 7, 8, 9, 10:
		o := ops[k-6]
		o.prep(r)
		s := send(func(r *requests.Request) error { return o.run(db, r) })
		if k == 8 {
			// the key works
			s.answer = func() int {
				t, ok := r.Response.Payload.(string)
				if err != nil || !ok {
					return 0
				}
				_, err := lookup(db, t)
				return 1 + mark(err)
			}
		}
		return s
	case 11:
		ops[4].prep(r)
		m := &r.MfaToken
		m.Secret = "another-secret"
		m.Passcode = enrolCode(m.Secret, "sha1", 6, 300)
		return send(db.AddMfaToken)
	case 12:
		ops[5].prep(r)
		return send(db.DeleteMfaToken)
	case 13:
		r.User.Password = oldPw
		return send(db.AuthenticateUser)
	case 14:
		r = requests.NewRequest()
		r.Key.Payload = apiText(0, 0)
		return send(db.LookupAPIKey)
	case 15:
		r.Flags.Enabled = true
		s := send(db.IdentifyUser)
		s.answer = func() int {
			n := len(r.User.Challenges)
			if r.Flags.MfaConfigured {
				n += 10
			}
			if r.Flags.MfaApp {
				n += 100
			}
			return n
		}
		return s
	case 16:
		s := send(db.GetUsers)
		s.answer = func() int {
			b, ok := r.Response.Payload.(*identity.UserMetadataBundle)
			if err != nil || !ok || b.Size() < 2 {
				return 0
			}
			return b.Size() + 100*b.Get()[0].Revision + 10000*b.Get()[1].Revision
		}
		return s
	case 17:
		s := send(db.GetAPIKeys)
		r.Key.Usage = "api"
		s.answer = func() int {
			b, ok := r.Response.Payload.(*identity.APIKeyBundle)
			if err != nil || !ok {
				return -1
			}
			return b.Size()
		}
		return s
	case 18:
		return step{func() { err = db.Save() }, code}
	}
	return step{func() { err = db.Copy(p + ".copy") }, func() int {
		if err != nil {
			return 0
		}
		c := reopen(p + ".copy")
		n := int(c.Revision) + 100*len(c.Users)
		for _, u := range c.Users {
			n = n*7 + len(u.Passwords) + 2*len(u.PublicKeys) + 3*len(u.APIKeys) + 5*len(u.MfaTokens)
		}
		return n
	}}
}

type outcome struct {
	a, b, users, revision, old, next, good, key int
	n                                           [2][5]int
	last                                        string
}

// result is what two requests left.
func result(db *identity.Database, a, b step) outcome {
	o := outcome{a: a.answer(), b: b.answer(), users: len(db.Users), revision: int(db.Revision)}
	for i, pw := range []string{oldPw, nextPw, goodPw} {
		if auth(db, "bob1", pw) {
			o.old += 1 << uint(i)
		}
		if auth(db, "alice", pw) {
			o.next += 1 << uint(i)
		}
		if auth(db, "zoe", pw) {
			o.good += 1 << uint(i)
		}
	}
	_, err := lookup(db, apiText(0, 0))
	o.key = mark(err)
	for i := range o.n {
		u := db.Users[i]
		o.n[i] = [5]int{len(u.Passwords), len(u.PublicKeys), len(u.APIKeys), len(u.MfaTokens), u.Revision}
	}
	o.last = db.Users[len(db.Users)-1].Username
	return o
}

func serial(p string, ka, kb int, swap bool) outcome {
	db := twoUsers(p)
	a, b := mkStep(db, ka, p+"1"), mkStep(db, kb, p+"2")
	if swap {
		b.run()
		a.run()
	} else {
		a.run()
		b.run()
	}
	return result(db, a, b)
}

// C36_pairs: two requests at the same time.
func C36_pairs() {
	v.Bound("any two of 20 requests, on the same and on other records, where control moves between them up to 3 times at their unlocks; against both orders")
	ka := v.Choose("first", steps)
	kb := v.Choose("second", steps)
	v.Assume(ka <= kb && (ka <= 12 || kb == 18))
	both(ka, kb)
}

func both(ka, kb int) {
	p := v.TempPath("db.json")
	db := twoUsers(p)
	a, b := mkStep(db, ka, p+"1"), mkStep(db, kb, p+"2")
	v.Both(db, a.run, b.run)
	got := result(db, a, b)
	v.Assert(got == serial(v.TempPath("ab.json"), ka, kb, false) || got == serial(v.TempPath("ba.json"), ka, kb, true), "concurrent requests act as if one came after the other")
	seen := map[string]bool{}
	for _, u := range db.Users {
		v.Assert(!seen[strings.ToLower(u.Username)] && !seen[strings.ToLower(u.EmailAddresses[0].Address)], "no two users share a name or an address")
		seen[strings.ToLower(u.Username)], seen[strings.ToLower(u.EmailAddresses[0].Address)] = true, true
	}
	if db.Revision > 7 {
		v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the file holds what the database does")
	}
}

// C36_names: two users are added at the same time.
func C36_names() {
	v.Bound("two additions of any usernames of 3 letters and any addresses of 1-2 letters before @x.io at the same time; control moves up to 3 times at unlocks")
	db := twoUsers(v.TempPath("db.json"))
	n1, n2 := v.Str("name1", "alpha", 3), v.Str("name2", "alpha", 3)
	m1, m2 := v.Str("mail1", "alpha", 1, 2), v.Str("mail2", "alpha", 1, 2)
	a, b := newUser(n1, goodPw, m1+"@x.io"), newUser(n2, goodPw, m2+"@x.io")
	var e1, e2 error
	v.Both(db, func() { e1 = db.AddUser(a) }, func() { e2 = db.AddUser(b) })
	clash := v.Or(strings.ToLower(n1) == strings.ToLower(n2), strings.ToLower(m1) == strings.ToLower(m2))
	v.Assert(e1 == nil || e2 == nil, "one of two additions succeeds")
	v.Assert(v.Iff(e1 == nil && e2 == nil, v.Not(clash)), "both succeed exactly when they do not clash")
	v.Assert(len(db.Users) == 2+mark(e1)+mark(e2) && int(db.Revision) == 7+mark(e1)+mark(e2), "an addition which is refused adds nothing")
	v.Assert(v.Same(v.Snap(db), v.SnapFile(db.GetPath())), "the file holds what the database does")
}

// C36_change: the password is changed twice at the same time.
func C36_change() {
	v.Bound("two password changes of one user at the same time, the second from any password of 10 characters, to any of 10; control moves up to 3 times at unlocks")
	db := twoUsers(v.TempPath("db.json"))
	o2, n1, n2 := v.Str("old2", "lalnum", 10), v.Str("new1", "lalnum", 10), v.Str("new2", "lalnum", 10)
	if v.Choose("current", 2) == 1 {
		o2 = oldPw
	}
	a, b := req("bob1", "bob1@x.io"), req("bob1", "bob1@x.io")
	a.User.OldPassword, a.User.Password = oldPw, n1
	b.User.OldPassword, b.User.Password = o2, n2
	var e1, e2 error
	v.Both(db, func() { e1 = db.ChangeUserPassword(a) }, func() { e2 = db.ChangeUserPassword(b) })
	is := func(ok1, ok2 bool, pw string) bool {
		return v.And(v.Iff(e1 == nil, ok1), v.Iff(e2 == nil, ok2), auth(db, "bob1", pw))
	}
	v.Assert(v.Or(
		v.And(o2 == n1, is(true, true, n2)),
		v.And(v.Not(o2 == n1), is(true, false, n1)),
		v.And(o2 == oldPw, is(false, true, n2)),
		v.And(v.Not(o2 == oldPw), is(true, false, n1))), "two changes act as if one came after the other")
	u := db.Users[0]
	n := 0
	for _, p := range u.Passwords {
		if !p.Disabled {
			n++
		}
	}
	v.Assert(n == 1 && len(u.Passwords) == 2+mark(e1)+mark(e2), "one password is active")
	v.Assert(v.Same(v.Snap(db), v.SnapFile(db.GetPath())), "the file holds what the database does")
}

// C36_delete: two credentials are deleted at the same time.
func C36_delete() {
	v.Bound("two deletions of a kind, of any IDs of 3-4 characters, by one user or two, at the same time; control moves up to 3 times at unlocks")
	db := twoUsers(v.TempPath("db.json"))
	i1, i2 := v.Str("id1", "lalnum", 3, 4), v.Str("id2", "lalnum", 3, 4)
	a, b := req("bob1", "bob1@x.io"), req("bob1", "bob1@x.io")
	same := v.Choose("user", 2) == 0
	if !same {
		b = req("alice", "alice@x.io")
	}
	k := v.Choose("kind", 3)
	id := []string{"pub", "key", "tok"}[k]
	for _, x := range []struct {
		r *requests.Request
		s string
	}{{a, i1}, {b, i2}} {
		x.r.Key.ID, x.r.MfaToken.ID = x.s, x.s
	}
	f := []func(*requests.Request) error{db.DeletePublicKey, db.DeleteAPIKey, db.DeleteMfaToken}[k]
	var e1, e2 error
	v.Both(db, func() { e1 = f(a) }, func() { e2 = f(b) })
	h1, h2 := v.Or(i1 == id, i1 == id+"2"), v.Or(i2 == id, i2 == id+"2")
	if same {
		v.Assert(v.Implies(v.Not(i1 == i2), v.And(v.Iff(e1 == nil, h1), v.Iff(e2 == nil, h2))), "different credentials are deleted each")
		v.Assert(v.Implies(v.And(i1 == i2, h1), (e1 == nil) != (e2 == nil)), "a credential is deleted once")
		v.Assert(v.Implies(v.And(i1 == i2, v.Not(h1)), e1 != nil && e2 != nil), "unknown credentials are refused")
	} else {
		v.Assert(v.And(v.Iff(e1 == nil, h1), v.Iff(e2 == nil, h2)), "users delete their own credentials")
	}
	n := 0
	for _, u := range db.Users {
		n += []int{len(u.PublicKeys), len(u.APIKeys), len(u.MfaTokens)}[k]
	}
	v.Assert(n == 4-mark(e1)-mark(e2), "nothing else is deleted")
	v.Assert(int(db.Revision) == 7+mark(e1)+mark(e2), "each deletion is counted")
}

// C36_tokens: two tokens are enrolled at the same time.
func C36_tokens() {
	v.Bound("two enrolments of one user at the same time, with any comments of 2 characters and the same secret or another; control moves up to 3 times at unlocks")
	db := twoUsers(v.TempPath("db.json"))
	c1, c2 := v.Str("comment1", "lalnum", 2), v.Str("comment2", "lalnum", 2)
	a, b := req("bob1", "bob1@x.io"), req("bob1", "bob1@x.io")
	ops[4].prep(a)
	ops[4].prep(b)
	same := v.Choose("secret", 2) == 0
	if !same {
		b.MfaToken.Secret = "another-secret"
		b.MfaToken.Passcode = enrolCode(b.MfaToken.Secret, "sha1", 6, 300)
	}
	a.MfaToken.Comment, b.MfaToken.Comment = c1, c2
	var e1, e2 error
	v.Both(db, func() { e1 = db.AddMfaToken(a) }, func() { e2 = db.AddMfaToken(b) })
	v.Assert(e1 == nil || e2 == nil, "one of two enrolments succeeds")
	v.Assert(v.Iff(e1 == nil && e2 == nil, v.And(!same, v.Not(c1 == c2))), "both succeed exactly when they do not clash")
	v.Assert(len(db.Users[0].MfaTokens) == 2+mark(e1)+mark(e2) && int(db.Revision) == 7+mark(e1)+mark(e2), "an enrolment which is refused adds nothing")
}

// C36_fault: the file cannot be written for one of two changes made at the
// same time.
func C36_fault() {
	v.Bound("any two of seven changes at the same time, of one user or two, with a fault at any one file-system call of either; control moves up to 3 times at unlocks")
	p := v.TempPath("db.json")
	db := twoUsers(p)
	v.Assume(db.Save() == nil)
	kinds := []int{0, 3, 6, 7, 8, 9, 11}
	ka := v.Choose("first", len(kinds))
	kb := v.Choose("second", len(kinds))
	v.Assume(ka < kb && (v.Thorough() || kb == ka+2 && ka != 2 && ka != 4 || ka == 2 && kb == 3))
	var e [2]error
	var f [2]func()
	var count [2]func(u *identity.User) int // of what the change adds or removes
	var by, who [2]int
	for i, k := range []int{kinds[ka], kinds[kb]} {
		i := i
		r := req("bob1", "bob1@x.io")
		if i == 1 && k != 3 && v.Choose("user", 2) == 1 {
			r, who[i] = req("alice", "alice@x.io"), 1
		}
		by[i] = 1
		var g func(*requests.Request) error
		switch k {
		case 0:
			r, g = newUser("zoe", goodPw, "zoe@x.io"), db.AddUser
			count[i] = func(*identity.User) int { return len(db.Users) }
		case 3:
			r.User.OldPassword, r.User.Password, g = oldPw, nextPw, db.ChangeUserPassword
			count[i] = func(u *identity.User) int { return len(u.Passwords) }
		case 11:
			ops[4].prep(r)
			g = db.AddMfaToken
			count[i] = func(u *identity.User) int { return len(u.MfaTokens) }
		default:
			o := ops[k-6]
			o.prep(r)
			g = func(r *requests.Request) error { return o.run(db, r) }
			count[i] = func(u *identity.User) int { return len(u.PublicKeys) }
			if k > 7 {
				count[i] = func(u *identity.User) int { return len(u.APIKeys) }
			}
			by[i] = 1 - 2*(k%2)
		}
		f[i] = func() { e[i] = g(r) }
	}
	var want [2]int
	for i := range want {
		want[i] = count[i](db.Users[who[i]])
	}
	rev := db.Revision
	v.FaultFS(1, false)
	v.Both(db, f[0], f[1])
	v.FaultOff()
	v.Assert(e[0] == nil || e[1] == nil, "one fault fails one change")
	for i := range want {
		for j := range e {
			// the two may concern the same list
			if e[j] == nil && (i == j || who[0] == who[1] && (kinds[ka]-6)/2 == (kinds[kb]-6)/2) {
				want[i] += by[j]
			}
		}
	}
	v.Assert(count[0](db.Users[who[0]]) == want[0] && count[1](db.Users[who[1]]) == want[1], "exactly the changes which succeeded are made")
	v.Assert(db.Revision == rev+uint64(mark(e[0])+mark(e[1])), "exactly the changes which succeeded are counted")
	v.Assert(v.Same(v.Snap(db), v.SnapFile(p)), "the file holds what the database does")
	v.Assert(auth(db, "bob1", nextPw) == (kinds[ka] == 3 && e[0] == nil || kinds[kb] == 3 && e[1] == nil), "the password is the changed one exactly when it was changed")
	if v.Faults() > 0 {
		v.Cover("fault")
	}
}
