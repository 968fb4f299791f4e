package h

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"hash"
	"strconv"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// totp is the RFC 6238 code of a time step.
func totp(secret, algo string, digits int, step uint64) string {
	h := sha1.New
	switch algo {
	case "sha256":
		h = func() hash.Hash { return sha256.New() }
	case "sha512":
		h = func() hash.Hash { return sha512.New() }
	}
	m := hmac.New(h, []byte(secret))
	var c [8]byte
	binary.BigEndian.PutUint64(c[:], step)
	m.Write(c[:])
	s := m.Sum(nil)
	o := s[len(s)-1] & 15
	n := uint64(binary.BigEndian.Uint32(s[o:o+4]) & 0x7fffffff)
	mod := uint64(1)
	for i := 0; i < digits; i++ {
		mod *= 10
	}
	r := strconv.FormatUint(n%mod, 10)
	for len(r) < digits {
		r = "0" + r
	}
	return r
}

// enrolCode is a passcode which enrolment accepts now.
func enrolCode(secret, algo string, digits, period int) string {
	t := time.Now().Unix() - int64(period)
	return totp(secret, algo, digits, uint64(t/int64(period)))
}

const (
	oldPw  = "Secret-old"
	nextPw = "Secret-new"
)

// apiText is an API key text of the given owner and number.
func apiText(i, n int) string {
	s := ""
	for len(s) < 72 {
		s += "k" + string(rune('0'+i)) + string(rune('0'+n)) + "QrStUvWxYz"
	}
	return s[:72]
}

// richUser is a stored user with one enabled credential of every kind, each
// followed by another one (disabled, or of another usage). Both users of a
// test use the same credential IDs, so that only the owner tells them apart.
func richUser(i int, name string, emails ...string) *identity.User {
	u := mkUser(i, name, v.Hash(oldPw), emails...)
	k := apiText(i, 0)
	u.APIKeys = []*identity.APIKey{{ID: "key", Prefix: k[:24], Usage: "api", Comment: "c", Payload: v.Hash(k), CreatedAt: t0}}
	u.PublicKeys = []*identity.PublicKey{{ID: "pub", Usage: "ssh", Type: "ssh-rsa", Fingerprint: "f" + name, FingerprintMD5: "m", Comment: "c", Payload: "p", OpenSSH: "o", CreatedAt: t0}}
	u.MfaTokens = []*identity.MfaToken{{ID: "tok", Type: "totp", Algorithm: "sha1", Comment: "phone of " + name, Secret: "secret of " + name, Period: 60, Digits: 6, CreatedAt: t0,
		Parameters: map[string]string{}, Flags: map[string]bool{}}}
	t1 := t0.AddDate(0, 1, 1)
	o := apiText(i, 7)
	u.APIKeys = append(u.APIKeys, &identity.APIKey{ID: "key2", Prefix: o[:24], Usage: "api", Comment: "c2", Payload: v.Hash(o), CreatedAt: t0, Disabled: true, DisabledAt: t1, Expired: true, ExpiredAt: t1})
	u.PublicKeys = append(u.PublicKeys, &identity.PublicKey{ID: "pub2", Usage: "gpg", Type: "dsa", Fingerprint: "g" + name, Comment: "c2", Payload: "p2", CreatedAt: t1, Expired: true, ExpiredAt: t1})
	u.MfaTokens = append(u.MfaTokens, &identity.MfaToken{ID: "tok2", Type: "u2f", Comment: "stick of " + name, Secret: "challenge of " + name, CreatedAt: t0, Disabled: true, DisabledAt: t1, SignatureCounter: 7,
		Device: &identity.MfaDevice{Name: "n", Vendor: "w", Type: "t"}, Parameters: map[string]string{"u2f_id": "id", "key_type": "ec2"}, Flags: map[string]bool{"UP": true, "UV": false}})
	u.Passwords = append(u.Passwords, &identity.Password{Purpose: "former", Algorithm: "bcrypt", Hash: v.Hash("former-pw"), Cost: 12, CreatedAt: t0, Expired: true, ExpiredAt: t1, Disabled: true, DisabledAt: t1})
	if i == 0 {
		u.Lockout = &identity.LockoutState{Enabled: true, StartTime: t0, EndTime: t1}
		u.Organization = &identity.Organization{ID: 5, Name: "org", Aliases: []string{"o1", "o2"}}
		u.Organizations = []*identity.Organization{u.Organization}
		u.StreetAddress = []*identity.Location{{Street: "s", City: "c", State: "t", ZipCode: "z", Confirmed: true, Residential: true}, {Current: true, Domicile: true, Commercial: true}}
	}
	u.Roles = []*identity.Role{{Name: "user-" + name}}
	u.Name = &identity.Name{First: "First", Last: name, Middle: "M", Preferred: "P", Confirmed: i == 0, Legal: true}
	u.Names = []*identity.Name{u.Name, {First: "F", Last: "Alias of " + name, Nickname: true, Primary: true, Alias: true}}
	return u
}

type op struct {
	name  string
	write bool
	prep  func(r *requests.Request)
	run   func(db *identity.Database, r *requests.Request) error
}

var ops = []op{
	{"AddPublicKey", true, func(r *requests.Request) { r.Key.Usage, r.Key.Payload, r.Key.Comment = "ssh", sshKeys[0], "laptop" }, (*identity.Database).AddPublicKey},
	{"DeletePublicKey", true, func(r *requests.Request) { r.Key.ID = "pub" }, (*identity.Database).DeletePublicKey},
	{"AddAPIKey", true, func(r *requests.Request) { r.Key.Usage, r.Key.Comment = "api", "job" }, (*identity.Database).AddAPIKey},
	{"DeleteAPIKey", true, func(r *requests.Request) { r.Key.ID = "key" }, (*identity.Database).DeleteAPIKey},
	{"AddMfaToken", true, func(r *requests.Request) {
		m := &r.MfaToken
		m.Type, m.Secret, m.Algorithm, m.Period, m.Digits, m.Comment = "totp", "fresh-secret", "sha1", 300, 6, "tablet"
		m.Passcode = enrolCode(m.Secret, "sha1", 6, 300)
	}, (*identity.Database).AddMfaToken},
	{"DeleteMfaToken", true, func(r *requests.Request) { r.MfaToken.ID = "tok" }, (*identity.Database).DeleteMfaToken},
	{"ChangeUserPassword", true, func(r *requests.Request) { r.User.OldPassword, r.User.Password = oldPw, nextPw }, (*identity.Database).ChangeUserPassword},
	{"GetUsers", false, func(r *requests.Request) {}, (*identity.Database).GetUsers},
	{"GetUser", false, func(r *requests.Request) {}, (*identity.Database).GetUser},
	{"GetPublicKeys", false, func(r *requests.Request) { r.Key.Usage = "ssh" }, (*identity.Database).GetPublicKeys},
	{"GetAPIKeys", false, func(r *requests.Request) { r.Key.Usage = "api" }, (*identity.Database).GetAPIKeys},
	{"GetMfaTokens", false, func(r *requests.Request) {}, (*identity.Database).GetMfaTokens},
	{"DeleteUser", false, func(r *requests.Request) { r.Query.ID = uids[0] }, (*identity.Database).DeleteUser},
}
