package h

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

func md5Print(k string) string {
	b, _ := base64.StdEncoding.DecodeString(strings.Split(k, " ")[1])
	h := md5.Sum(b)
	s := ""
	for i, c := range h {
		if i > 0 {
			s += ":"
		}
		s += hex.EncodeToString([]byte{c})
	}
	return s
}

func newPub(usage, payload, comment string) (*identity.PublicKey, error) {
	r := requests.NewRequest()
	r.Key.Usage, r.Key.Payload, r.Key.Comment = usage, payload, comment
	return identity.NewPublicKey(r)
}

// variant is the i-th key in either form, with arbitrary white space around
// it and, in OpenSSH form, an arbitrary comment.
func variant(i int, name string) (payload, comment string) {
	n := 1
	if v.Thorough() {
		n = 2
	}
	ws := "set: \t\r\n"
	if v.Choose(name+"form", 2) == 0 {
		s := sshKeys[i]
		if v.Choose(name+"comment", 2) == 1 {
			comment = v.Str(name+"text", "graph", 1, 3)
			s += v.Pick(name+"gap", " ", "  ", "\t", " \t ") + comment
		}
		return s + v.Str(name+"tail", ws, 0, n), comment
	}
	return v.Str(name+"lead", ws, 0, n) + pemKeys[i] + v.Str(name+"tail", ws, 0, n), ""
}

// C26_forms: both forms give the same record.
func C26_forms() {
	v.Bound("three RSA keys in OpenSSH or PEM form, with up to one (thorough: two) arbitrary white-space bytes around them and OpenSSH comments of 1 or 3 printable bytes")
	i := v.Choose("key", 3)
	payload, comment := variant(i, "")
	k, err := newPub("ssh", payload, "given")
	v.Assert(err == nil, "either form is accepted")
	if err != nil {
		return
	}
	wire := strings.Split(sshKeys[i], " ")[1]
	v.Assert(k.Type == "ssh-rsa", "the type")
	v.Assert(k.Fingerprint == sshPrint(sshKeys[i]), "the SHA-256 fingerprint")
	v.Assert(k.FingerprintMD5 == md5Print(sshKeys[i]), "the MD5 fingerprint")
	v.Assert(k.OpenSSH == wire, "the OpenSSH form")
	v.Assert(k.Payload == pemKeys[i], "the PEM form")
	if comment == "" {
		comment = "given"
	}
	v.Assert(k.Comment == comment, "the comment")
	v.Assert(k.Usage == "ssh" && !k.Disabled && !k.Expired, "the usage and flags")
	v.Cover("recorded")
}

// C26_duplicate: a second submission in any form is a duplicate.
func C26_duplicate() {
	v.Bound("two submissions of the same or different keys of three, each in either form with arbitrary surrounding white space and comments")
	p := v.TempPath("db.json")
	db := mkDB(p, pubUser(0, "bob"))
	i := v.Choose("first", 3)
	a, _ := variant(i, "a")
	v.Assert(addPub(db, "bob", "ssh", a, "c", false) == nil, "the first submission is accepted")
	j := i
	if v.Choose("other", 2) == 1 {
		j = (i + 1) % 3
	}
	b, _ := variant(j, "b")
	d := db
	if v.Choose("reopen", 2) == 1 {
		d = reopen(p)
	}
	err := addPub(d, "bob", "ssh", b, "d", false)
	v.Assert((err != nil) == (i == j), "exactly the same key is a duplicate in whatever form")
	n := 2
	if i == j {
		n = 1
	}
	v.Assert(len(listPub(d, "bob", "ssh")) == n, "listed once each")
}

// C26_usage: usages and payload kinds must agree.
func C26_usage() {
	v.Bound("RSA keys in both forms and PGP keys under every usage of 0-3 printable bytes")
	kind := v.Choose("kind", 3)
	payload := []string{sshKeys[0], pemKeys[0], pgpKeys[0]}[kind]
	usage := v.Str("usage", "print", 0, 2, 3)
	_, err := newPub(usage, payload, "c")
	want := usage == "ssh"
	if kind == 2 {
		want = usage == "gpg"
	}
	v.Assert(v.Iff(err == nil, want), "the usage matches the payload kind")
}

// C26_keys: many keys.
func C26_keys() {
	v.Bound("18 RSA keys of 511-1024 bits with exponents 3, 5, 17 and 65537 and fingerprints beginning or ending with unusual letters, in either form, then again in either form")
	p := v.TempPath("db.json")
	db := mkDB(p, pubUser(0, "bob"), pubUser(1, "alice"))
	k := rsaKeys[v.Choose("key", len(rsaKeys))]
	v.Assert(addPub(db, "bob", "ssh", k[v.Choose("form", 2)], "c", false) == nil, "the key is accepted")
	if len(db.Users[0].PublicKeys) != 1 {
		v.Assert(false, "one key is listed")
		return
	}
	r := db.Users[0].PublicKeys[0]
	v.Assert(r.Type == "ssh-rsa", "the type")
	v.Assert(r.Fingerprint == sshPrint(k[0]), "the SHA-256 fingerprint")
	v.Assert(r.FingerprintMD5 == md5Print(k[0]), "the MD5 fingerprint")
	v.Assert(r.OpenSSH == strings.Split(k[0], " ")[1], "the OpenSSH form")
	v.Assert(r.Payload == k[1], "the PEM form")
	v.Assert(addPub(reopen(p), "bob", "ssh", k[v.Choose("again", 2)], "d", false) != nil, "the same key is a duplicate in whatever form")
	v.Cover("recorded")
}
