package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// digits is n in decimal.
func digits(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return digits(n/10) + digits(n%10)
}

// raceDB holds two users with one of every credential and a security key.
func raceDB(p string) *identity.Database {
	a, b := richUser(0, "Bob1", "bob1@x.io"), richUser(1, "alice", "alice@x.io")
	a.MfaTokens = append(a.MfaTokens, mkStick(0, "credA"))
	b.MfaTokens = append(b.MfaTokens, mkStick(1, "credB"))
	return mkDB(p, a, b)
}

const calls = 27

// call is the k-th kind of operation, for the i-th user.
func call(db *identity.Database, p string, k, i int, tag string, doc [2]string) func(int) {
	name := []string{"bob1", "alice"}[i]
	if k < len(ops) {
		o := ops[k]
		return func(n int) {
			r := req(name, name+"@x.io")
			o.prep(r)
			switch o.name {
			case "AddAPIKey":
				r.Key.Comment += tag + digits(n)
			case "AddMfaToken":
				r.MfaToken.Comment += tag + digits(n)
			}
			o.run(db, r)
		}
	}
	switch k - len(ops) {
	case 0:
		return func(n int) {
			s := tag + digits(n)
			db.AddUser(newUser("zoe"+s, goodPw, "zoe"+s+"@x.io"))
		}
	case 1:
		return func(n int) { auth(db, name, oldPw) }
	case 2:
		return func(n int) {
			r := requests.NewRequest()
			r.User.Username, r.WebAuthn.Request, r.WebAuthn.Challenge = name, doc[i], "issued"
			db.AuthenticateUser(r)
		}
	case 3:
		return func(n int) {
			r := requests.NewRequest()
			r.User.Username, r.Flags.Enabled = name, true
			db.IdentifyUser(r)
		}
	case 4:
		return func(n int) {
			r := requests.NewRequest()
			r.Key.Payload = apiText(i, 0)
			db.LookupAPIKey(r)
		}
	case 5:
		return func(n int) { db.Save() }
	case 6:
		return func(n int) { db.Copy(p + ".copy" + tag) }
	case 7:
		return func(n int) { db.GetUserCount() }
	case 8:
		return func(n int) {
			db.GetPath()
			db.GetUsernamePolicySummary()
			db.GetUsernamePolicyRegex()
			db.GetPasswordPolicySummary()
			db.GetPasswordPolicyRegex()
		}
	case 9:
		return func(n int) { identity.GetRandomString(3) }
	case 10:
		return func(n int) { identity.GetRandomStringFromRange(3, 5) }
	case 11:
		return func(n int) { identity.NewRandomString(3) }
	case 12:
		return func(n int) { identity.NewID() }
	case 13:
		return func(n int) {
			r := req(name, name+"@x.io")
			r.MfaToken.Type, r.MfaToken.Comment = "u2f", "stick"+tag+digits(n)
			r.WebAuthn.Register, r.WebAuthn.Challenge = b64(regDoc(nil)), "challenge"+tag
			db.AddMfaToken(r)
		}
	}
	return func(int) {}
}

func docs() (d [2]string) {
	d[0] = b64(genuine(0, "credA").doc())
	d[1] = b64(genuine(1, "credB").doc())
	return
}

// C17_pairs: any two operations.
func C17_pairs() {
	v.Bound("any two of 27 operations (every public method of the database, and the generators), of the same user or of two, on two users with every credential; every schedule in which each read returns what it does when one runs before the other")
	p := v.TempPath("db.json")
	doc := docs()
	db := raceDB(p)
	a := v.Choose("first", calls)
	b := v.Choose("second", calls)
	v.Assume(a <= b)
	i := v.Choose("user", 2)
	v.Race("order", call(db, p, a, 0, "a", doc), call(db, p, b, i, "b", doc))
	db.Save()
}

// C17_refused: operations which fail.
func C17_refused() {
	v.Bound("any operation refused for an unknown user, a wrong address, wrong credentials or a file-system fault, next to any other")
	p := v.TempPath("db.json")
	doc := docs()
	db := raceDB(p)
	k := v.Choose("what", 20)
	var f func(int)
	switch {
	case k < len(ops):
		o := ops[k]
		mail := v.Pick("mail", "alice@x.io", "", "bob1@x.io")
		name := v.Pick("name", "bob1", "ghost", "")
		f = func(n int) {
			r := req(name, mail)
			o.prep(r)
			r.Key.Comment = ""
			r.Key.ID, r.MfaToken.ID, r.Query.ID = "none", "none", "none"
			r.User.OldPassword = "wrong"
			r.MfaToken.Comment = ""
			o.run(db, r)
		}
	case k == 13:
		pw, mail := v.Pick("pw", "", "x", goodPw), v.Pick("mail", "junk", "bob1@x.io", "zoe@x.io")
		name := v.Pick("name", "bob1", "x", "zoe")
		f = func(n int) { db.AddUser(newUser(name, pw, mail)) }
	case k == 14:
		name, pw := v.Pick("name", "ghost", "bob1", ""), v.Pick("pw", "wrong", "")
		f = func(n int) { auth(db, name, pw) }
	case k == 15:
		d := v.Pick("doc", doc[1], "junk", b64("{}"))
		f = func(n int) {
			r := requests.NewRequest()
			r.User.Username, r.WebAuthn.Request, r.WebAuthn.Challenge = "bob1", d, "issued"
			db.AuthenticateUser(r)
		}
	case k == 16:
		f = func(n int) {
			r := requests.NewRequest()
			r.User.Username, r.Flags.Enabled = "ghost", true
			db.IdentifyUser(r)
		}
	case k == 17:
		key := v.Pick("key", "", apiText(0, 1), apiText(0, 0)[:70]+"--")
		f = func(n int) {
			r := requests.NewRequest()
			r.Key.Payload = key
			db.LookupAPIKey(r)
		}
	case k == 18:
		f = func(n int) { db.Copy(p + "/x/y") }
	case k == 19:
		f = func(n int) { identity.NewDatabase(p) }
	}
	g := call(db, p, v.Choose("other", calls), 0, "b", doc)
	v.Race("order", f, g)
	db.Save()
}

// C17_faults: operations which roll back.
func C17_faults() {
	v.Bound("any mutating operation meeting one file-system fault, followed by another operation; no lock stays held")
	p := v.TempPath("db.json")
	db := raceDB(p)
	m := mkMut(v.Choose("op", mutCount), "0", nil)
	v.FaultFS(1, false)
	err := m.run(db)
	v.FaultOff()
	if err != nil {
		v.Cover("failed")
	}
	v.Assert(db.GetUserCount() >= 2 && db.Save() == nil, "the database stays usable")
}
