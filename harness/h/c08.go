package h

import (
	"crypto/sha256"
	"encoding/base64"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// sshPrint is the SHA-256 fingerprint of an OpenSSH key.
func sshPrint(k string) string {
	b, _ := base64.StdEncoding.DecodeString(strings.Split(k, " ")[1])
	h := sha256.Sum256(b)
	return base64.RawStdEncoding.EncodeToString(h[:])
}

func bare(f string) string { return strings.TrimPrefix(f, "SHA256:") }

func listPub(db *identity.Database, name, usage string) []*identity.PublicKey {
	r := req(name, name+"@x.io")
	r.Key.Usage = usage
	err := db.GetPublicKeys(r)
	b, ok := r.Response.Payload.(*identity.PublicKeyBundle)
	v.Assert(err == nil && ok && b.Size() == len(b.Get()), "public keys listed")
	return b.Get()
}

func addPub(db *identity.Database, name, usage, payload, comment string, disabled bool) error {
	r := req(name, name+"@x.io")
	r.Key.Usage, r.Key.Payload, r.Key.Comment, r.Key.Disabled = usage, payload, comment, disabled
	return db.AddPublicKey(r)
}

func pubUser(i int, name string) *identity.User {
	return mkUser(i, name, v.Hash(oldPw), name+"@x.io")
}

// C08_duplicate: addition against stored keys of any type and fingerprint.
func C08_duplicate() {
	v.Bound("one stored key of any 7-byte type and any 43-byte fingerprint, with or without its algorithm prefix, of the same user or another; three RSA keys in two forms added")
	p := v.TempPath("db.json")
	i, form := v.Choose("key", 3), v.Choose("form", 2)
	payload := sshKeys[i]
	if form == 1 {
		payload = pemKeys[i]
	}
	typ, fp := v.Str("type", "graph", 7), v.Str("fp", "graph", 43)
	bob, alice := pubUser(0, "bob"), pubUser(1, "alice")
	own := v.Choose("owner", 2) == 0
	k := &identity.PublicKey{ID: "k0", Usage: v.Pick("usage", "ssh", "gpg"), Type: typ, Fingerprint: v.Pick("alg", "", "SHA256:") + fp, Payload: "p", CreatedAt: t0}
	k.Disabled = v.Bool("disabled")
	if own {
		bob.PublicKeys = append(bob.PublicKeys, k)
	} else {
		alice.PublicKeys = append(alice.PublicKeys, k)
	}
	db := mkDB(p, bob, alice)
	before, file, a0 := v.Full(db), v.SnapFile(p), v.Full(db.Users[1])
	err := addPub(db, "bob", "ssh", payload, "laptop", false)
	dup := v.And(own, typ == "ssh-rsa", fp == sshPrint(sshKeys[i]))
	v.Assert(v.Iff(err != nil, dup), "a key is refused exactly when the user holds it")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refused key changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refused key leaves the file")
		v.Cover("refused")
		return
	}
	v.Cover("added")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "the other user is not touched")
	for _, d := range []*identity.Database{db, reopen(p)} {
		ks := d.Users[0].PublicKeys
		w := ks[len(ks)-1]
		v.Assert(len(ks) == len(bob.PublicKeys)+1, "one key is added")
		v.Assert(w.Usage == "ssh" && w.Type == "ssh-rsa" && bare(w.Fingerprint) == sshPrint(sshKeys[i]) && w.Comment == "laptop" && !w.Disabled && !w.Expired && len(w.ID) == 40, "the key's record")
		v.Assert(addPub(d, "bob", "ssh", payload, "other", false) != nil, "a second addition is refused")
	}
}

// C08_kinds: payloads of every kind for every usage.
func C08_kinds() {
	v.Bound("a catalogue of payloads (RSA as OpenSSH and PEM, PKCS1, Ed25519, ECDSA, three PGP keys, a key ring of two, broken ones) under usages ssh, gpg and any other of 0, 2 or 3 printable bytes; two additions")
	ps := []string{sshKeys[0], pemKeys[1], pgpKeys[0], pgpKeys[1], pgpKeys[2],
		pkcs1Key, ed25519Key, ecdsaKey, strings.Replace(sshKeys[0], "AAAAB3", "AAAAB4", 1), sshKeys[0][:60], pemKeys[0][:150], pgpKeys[0][:300],
		"", "ssh-rsa ", "ssh-rsa", "RSA PUBLIC KEY", "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----\n", "BEGIN PGP PUBLIC KEY BLOCK",
		"-----BEGIN PGP PUBLIC KEY BLOCK-----\n-----END PGP PUBLIC KEY BLOCK-----", "ssh-rsa " + strings.Split(ed25519Key, " ")[1], pgpPair}
	i := v.Choose("payload", len(ps))
	usage := v.Pick("usage", "ssh", "gpg", "")
	if usage == "" {
		usage = v.Str("any", "print", 0, 2, 3)
		v.Assume(v.And(usage != "ssh", usage != "gpg"))
	}
	p := v.TempPath("db.json")
	db := mkDB(p, pubUser(0, "bob"), pubUser(1, "alice"))
	before, file := v.Full(db), v.SnapFile(p)
	dis := v.Bool("disabled")
	err := addPub(db, "bob", usage, ps[i], "c", dis)
	want := usage == "ssh" && i < 2 || usage == "gpg" && i >= 2 && i < 5
	v.Assert((err == nil) == want, "exactly the supported keys of the usage are accepted")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refused payload changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refused payload leaves the file")
		return
	}
	v.Cover("accepted " + usage)
	v.Assert(len(db.Users[0].PublicKeys) == 1, "stored once")
	k := db.Users[0].PublicKeys[0]
	v.Assert(v.And(v.Iff(k.Disabled, dis), k.Usage == usage, k.Fingerprint != "", k.ID != "", k.Payload != ""), "the key's record is complete")
	v.Assert(len(listPub(db, "bob", usage)) == map[bool]int{true: 0, false: 1}[dis], "listed unless disabled")
	v.Assert(addPub(db, "bob", usage, ps[i], "c", false) != nil, "a second addition is refused")
	v.Assert(addPub(db, "alice", usage, ps[i], "c", false) == nil, "another user may hold the same key")
}

// C08_text: short arbitrary payloads never panic and are refused.
func C08_text() {
	v.Bound("payloads of 0-3 arbitrary ASCII bytes, or the OpenSSH marker followed by 1-3 bytes which are not base64")
	payload := ""
	if v.Choose("head", 2) == 0 {
		payload = v.Str("text", "ascii", 0, 1, 2, 3)
	} else {
		payload = v.Pick("marker", "ssh-rsa ", "ssh-rsa AAAA", "ssh-rs") + v.Str("junk", "set:!#$%&'()*,-.:;<>?@[]^_`{|}~", 1, 2, 3)
	}
	p := v.TempPath("db.json")
	db := mkDB(p, pubUser(0, "bob"))
	before := v.Full(db)
	usage := v.Pick("usage", "ssh", "gpg")
	v.Assert(addPub(db, "bob", usage, payload, "c", false) != nil, "a short text is no key")
	v.Assert(v.Same(before, v.Full(db)), "a short text changes nothing")
}

// C08_list: listings by any usage under any flags.
func C08_list() {
	v.Bound("three keys of arbitrary 3-byte usage and flags; any requested usage of 0, 3 or 4 printable bytes")
	bob, alice := pubUser(0, "bob"), pubUser(1, "alice")
	for i := 0; i < 4; i++ {
		k := &identity.PublicKey{ID: "k" + string(rune('0'+i)), Usage: "ssh", Type: "ssh-rsa", Fingerprint: "f" + string(rune('0'+i)), CreatedAt: t0}
		if i < 3 {
			k.Usage, k.Disabled, k.Expired = v.Str("usage", "print", 3), v.Bool("disabled"), v.Bool("expired")
			bob.PublicKeys = append(bob.PublicKeys, k)
		} else {
			alice.PublicKeys = append(alice.PublicKeys, k)
		}
	}
	db := mkDB(v.TempPath("db.json"), bob, alice)
	want := v.Str("want", "print", 0, 3, 4)
	before := v.Full(db)
	got := listPub(db, "bob", want)
	n := 0
	for _, k := range db.Users[0].PublicKeys {
		in := false
		for _, g := range got {
			in = in || g == k
		}
		v.Assert(v.Iff(in, v.And(k.Usage == want, v.Not(k.Disabled))), "exactly the enabled keys of the usage are listed")
		if in {
			n++
		}
	}
	v.Assert(len(got) == n, "nothing else is listed")
	v.Assert(v.Same(before, v.Full(db)), "listing changes nothing")
}

// C08_delete: deletion by any ID.
func C08_delete() {
	v.Bound("three keys with arbitrary 2-byte IDs, one of them with any flags; deletion by any ID of 0 or 2-3 printable bytes")
	p := v.TempPath("db.json")
	bob, alice := pubUser(0, "bob"), pubUser(1, "alice")
	off := v.Choose("off", 3)
	var ids []string
	for i := 0; i < 3; i++ {
		ids = append(ids, v.Str("kid", "graph", 2))
		bob.PublicKeys = append(bob.PublicKeys, &identity.PublicKey{ID: ids[i], Usage: "ssh", Type: "ssh-rsa", Comment: "c" + string(rune('0'+i)), Fingerprint: "f" + string(rune('0'+i)), CreatedAt: t0})
	}
	bob.PublicKeys[off].Disabled, bob.PublicKeys[off].Expired = v.Bool("disabled"), v.Bool("expired")
	v.Assume(v.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
	alice.PublicKeys = []*identity.PublicKey{{ID: ids[1], Usage: "ssh", Type: "ssh-rsa", Fingerprint: "f1", CreatedAt: t0}, {ID: "ak", Usage: "ssh", Type: "ssh-rsa", Fingerprint: "f2", CreatedAt: t0}}
	db := mkDB(p, bob, alice)
	id := v.Str("id", "print", 0, 2, 3)
	r := req("bob", "bob@x.io")
	r.Key.ID = id
	before, a0, file := v.Full(db), v.Full(db.Users[1]), v.SnapFile(p)
	err := db.DeletePublicKey(r)
	v.Assert(v.Iff(err == nil, v.Or(id == ids[0], id == ids[1], id == ids[2])), "exactly the user's key IDs can be deleted")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep theirs")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "an unknown ID changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "an unknown ID leaves the file")
	} else {
		v.Cover("deleted")
	}
	for _, d := range []*identity.Database{db, reopen(p)} {
		l := listPub(d, "bob", "ssh")
		n := 0
		for i := range ids {
			in := false
			for _, k := range l {
				in = v.Or(in, v.And(k.ID == ids[i], k.Fingerprint == "f"+string(rune('0'+i))))
			}
			v.Assert(v.Iff(in, v.And(ids[i] != id, v.Not(bob.PublicKeys[i].Disabled))), "exactly that key leaves the listing")
			left := false
			for _, k := range d.Users[0].PublicKeys {
				left = v.Or(left, k.ID == ids[i])
			}
			v.Assert(v.Iff(left, ids[i] != id), "exactly that key leaves the user's keys")
			if in {
				n++
			}
		}
		v.Assert(len(l) == n, "no other key appears")
	}
}
