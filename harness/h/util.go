package h

import (
	"strings"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// Reference helpers. They must not use the code under test.

func isSpace(c byte) bool { return v.In(c, "set: \t\n\v\f\r") }

// trim removes surrounding ASCII white space.
func trim(s string) string {
	a, b := 0, len(s)
	for a < b && isSpace(s[a]) {
		a++
	}
	for b > a && isSpace(s[b-1]) {
		b--
	}
	return s[a:b]
}

// index is the position of the first c in s, or -1.
func index(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func count(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func fold(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) }

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

var t0 = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

var uids = []string{
	"00000000-0000-4000-8000-000000000001",
	"00000000-0000-4000-8000-000000000002",
	"00000000-0000-4000-8000-000000000003",
}

// mkUser is a stored user.
func mkUser(i int, name, pwHash string, emails ...string) *identity.User {
	u := &identity.User{ID: uids[i], Username: name, Created: t0, LastModified: t0, Revision: 3 + i}
	switch i {
	case 0:
		u.Enabled, u.Title = true, "Dr"
	case 1:
		u.Human, u.Avatar = true, &identity.Image{Title: "face", Body: "iVBORw0KGgo=", Path: "/face.png"}
	}
	for _, e := range emails {
		u.EmailAddresses = append(u.EmailAddresses, mkMail(e))
	}
	if len(u.EmailAddresses) > 0 {
		u.EmailAddress = u.EmailAddresses[0]
	}
	u.Passwords = []*identity.Password{mkPassword(pwHash)}
	return u
}

func mkMail(e string) *identity.EmailAddress {
	d := ""
	if i := strings.IndexByte(e, '@'); i >= 0 {
		d = e[i+1:]
	}
	return &identity.EmailAddress{Address: e, Domain: d}
}

func mkPassword(hash string) *identity.Password {
	return &identity.Password{Purpose: "generic", Algorithm: "bcrypt", Hash: hash, Cost: 4, CreatedAt: t0}
}

// mkDB writes a database file with the users and opens it.
func mkDB(path string, users ...*identity.User) *identity.Database {
	return openWith(path, &identity.Database{Revision: 7, LastModified: t0, Users: users})
}

func openWith(path string, d *identity.Database) *identity.Database {
	if d.Policy.Password.KeepVersions == 0 && d.Policy.User.MinLength == 0 {
		d.Policy = identity.Policy{
			User:     identity.UserPolicy{MinLength: 3, MaxLength: 50},
			Password: identity.PasswordPolicy{KeepVersions: 10, MinLength: 8, MaxLength: 128},
		}
	}
	v.WriteJSON(path, d)
	db, err := identity.NewDatabase(path)
	v.Assume(err == nil)
	return db
}

func req(name, email string) *requests.Request {
	r := requests.NewRequest()
	r.User.Username = name
	r.User.Email = email
	// fields which no operation asks for
	r.ID, r.Sandbox.ID, r.Upstream.Realm, r.Query.Name = "rid", "sid", "local", "qname"
	r.Flags.MfaRequired, r.User.Challenges, r.Response.Payload = true, []string{"pre"}, "stale"
	return r
}

// auth tells whether the name and password authenticate, by response code
// and error.
func auth(db *identity.Database, name, pw string) bool {
	r := requests.NewRequest()
	r.User.Username = name
	r.User.Password = pw
	err := db.AuthenticateUser(r)
	v.Assert(v.Iff(err == nil, r.Response.Code == 200), "authentication code agrees with its error")
	return err == nil
}

// getUser is the live record of a user.
func getUser(db *identity.Database, name, email string) *identity.User {
	r := req(name, email)
	if err := db.GetUser(r); err != nil {
		return nil
	}
	u, _ := r.Response.Payload.(*identity.User)
	return u
}

// silent tells that a request got no answer but the one it came with.
func silent(r *requests.Request) bool {
	return r.Response.Payload == nil || r.Response.Payload == "stale"
}
