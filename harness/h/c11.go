package h

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

// rpHash is the relying-party hash of the i-th test token.
func rpHash(i int) []byte {
	b := make([]byte, 32)
	for k := range b {
		b[k] = byte(k*7 + i*13 + 5)
	}
	return b
}

func b64b(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// mkStick is a stored security key token with the i-th test key.
func mkStick(i int, cred string) *identity.MfaToken {
	return &identity.MfaToken{ID: "stick" + cred, Type: "u2f", Comment: "c" + cred, Secret: "s" + cred, CreatedAt: t0,
		Parameters: map[string]string{"u2f_id": cred, "u2f_type": "public-key", "u2f_transports": "usb", "key_type": "ec2", "key_algo": "es256", "curve_type": "p256",
			"curve_xcoord": b64b(v.KeyX(i)), "curve_ycoord": b64b(v.KeyY(i)), "rp_id_hash": hex.EncodeToString(rpHash(i))},
		Flags: map[string]bool{"UP": true}}
}

// assertion is an assertion in parts; the encoded forms are made by doc.
type assertion struct {
	id, typ, challenge string
	cross              string // JSON text, "" for absent
	origin             string
	rp                 []byte
	flags              byte
	rest               []byte
	by                 int // the key which signs, -1 for none
	sign               func(auth []byte, client string) []byte
}

func genuine(i int, id string) *assertion {
	return &assertion{id: id, typ: "webauthn.get", challenge: "issued", cross: "false", origin: "https://x.io", rp: rpHash(i), flags: 1, rest: []byte{0, 0, 0, 9}, by: i}
}

func (a *assertion) auth() []byte {
	b := append([]byte(nil), a.rp...)
	b = append(b, a.flags)
	return append(b, a.rest...)
}

func (a *assertion) client() string {
	s := `{"type":"` + a.typ + `","challenge":"` + a.challenge + `","origin":"` + a.origin + `"`
	if a.cross != "" {
		s += `,"crossOrigin":` + a.cross
	}
	return s + "}"
}

func signed(i int, auth []byte, client string) []byte {
	h := sha256.Sum256([]byte(client))
	return v.Sign(i, append(append([]byte(nil), auth...), h[:]...))
}

func (a *assertion) doc() string {
	auth, client := a.auth(), a.client()
	sig := []byte{}
	if a.sign != nil {
		sig = a.sign(auth, client)
	} else {
		sig = signed(a.by, auth, client)
	}
	return assertDoc(`"`+a.id+`"`, b64b(auth), b64(client), b64b(sig), "")
}

func assertDoc(id, auth, client, sig, more string) string {
	s := `{"id":` + id + `,"type":"public-key","auth_data_encoded":"` + auth + `","client_data_encoded":"` + client + `","signature_encoded":"` + sig + `"`
	return s + more + "}"
}

func stickDB(p string, toks ...*identity.MfaToken) *identity.Database {
	bob, alice := mkUser(0, "bob", v.Hash("Secret-bob"), "bob@x.io"), mkUser(1, "alice", v.Hash("Secret-alice"), "alice@x.io")
	bob.MfaTokens = toks
	alice.MfaTokens = []*identity.MfaToken{mkStick(2, "credC")}
	return mkDB(p, bob, alice)
}

// assertAs authenticates with the encoded document.
func assertAs(db *identity.Database, name, enc, challenge string) bool {
	r := requests.NewRequest()
	r.User.Username = name
	r.WebAuthn.Request, r.WebAuthn.Challenge = enc, challenge
	before := v.Full(db)
	err := db.AuthenticateUser(r)
	v.Assert(v.Iff(err == nil, r.Response.Code == 200), "code agrees with the error")
	v.Assert(v.Same(before, v.Full(db)), "authentication changes nothing")
	if err == nil {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
	return err == nil
}

const textCls = "set: !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// C11_conditions: each condition of the assertion with any value.
func C11_conditions() {
	v.Bound("a genuine assertion in which one part (thorough: two parts) has any value: client-data type of 0, 11-13 bytes, challenge of 0 and 5-7 bytes, cross-origin true, false or absent, all 32 bytes of the relying-party hash, the flag byte, 4-8 further bytes, the signing key; tokens enrolled with the user-present bit set, clear or unrecorded")
	p := v.TempPath("db.json")
	tok := mkStick(0, "credA")
	switch v.Choose("enrolled", 3) {
	case 0:
		tok.Flags, tok.SignatureCounter = map[string]bool{"UP": false, "UV": true, "AT": true}, 1<<32-1
	case 1:
		tok.Flags, tok.Expired = nil, true
	}
	db := stickDB(p, tok)
	a := genuine(0, "credA")
	want := true
	n := 1
	if v.Thorough() {
		n = 2
	}
	at := 0
	for i := 0; i < n && at < 9; i++ {
		at += v.Choose("part", 9-at)
		switch at {
		case 0:
			a.typ = v.Str("type", textCls, 0, 11, 12, 13)
			want = v.And(want, a.typ == "webauthn.get")
		case 1:
			a.challenge = v.Str("challenge", textCls, 0, 5, 6, 7)
			want = v.And(want, a.challenge == "issued")
		case 2:
			a.cross = v.Pick("cross", "", "false", "true", "null")
			want = v.And(want, a.cross != "true")
		case 3:
			a.rp = v.Bytes("rp", 32)
			want = v.And(want, string(a.rp) == string(rpHash(0)))
		case 4:
			a.flags = v.Byte("flags")
			want = v.And(want, a.flags&1 == 1)
		case 5:
			a.rest = v.Bytes("rest", 4+v.Choose("extra", 5))
		case 6:
			a.by = v.Choose("key", 3)
			want = v.And(want, a.by == 0)
		case 7:
			a.origin = v.Str("origin", textCls, 0, 3)
		case 8:
			id := v.Str("id", textCls, 0, 4, 5, 6)
			want = v.And(want, id == "credA")
			a.id = id
		}
		at++
	}
	v.Assert(v.Iff(assertAs(db, "bob", b64(a.doc()), "issued"), want), "accepted exactly when genuine")
}

// C11_pairs: several conditions failing, or unusual, at once.
func C11_pairs() {
	v.Bound("all combinations of: right or wrong type, challenge, cross-origin, relying party, key and credential ID; an origin, none or null; flag bytes 0, 1, 4, 5 and 255; counter zero, lower, equal or higher than the stored one; tokens enrolled with the user verified or not (quick: at most two conditions fail)")
	bad := 0
	pick := func(name string) bool {
		b := v.Choose(name, 2) == 1
		if b {
			bad++
		}
		return b
	}
	tok := mkStick(0, "credA")
	if v.Choose("verified", 2) == 1 {
		tok.Flags, tok.SignatureCounter = map[string]bool{"UP": true, "UV": true}, 9
	}
	db := stickDB(v.TempPath("db.json"), tok)
	a := genuine(0, "credA")
	if pick("type") {
		a.typ = "webauthn.create"
	}
	if pick("challenge") {
		a.challenge = v.Pick("other", "", "Issued")
	}
	if pick("cross") {
		a.cross = "true"
	}
	if pick("rp") {
		a.rp = rpHash(1)
	}
	if pick("key") {
		a.by = 1
	}
	if pick("id") {
		a.id = "credB"
	}
	a.flags = []byte{1, 0, 4, 5, 255}[v.Choose("flags", 5)]
	if a.flags&1 == 0 {
		bad++
	}
	v.Assume(bad < 3 || v.Thorough())
	a.origin = v.Pick("origin", "https://x.io", "", "null", "https://evil.io")
	a.rest = [][]byte{{0, 0, 0, 9}, {0, 0, 0, 0}, {0, 0, 0, 8}, {255, 255, 255, 255}}[v.Choose("counter", 4)]
	v.Assert(assertAs(db, "bob", b64(a.doc()), "issued") == (bad == 0), "accepted exactly when genuine")
}

// C11_challenge: any issued challenge.
func C11_challenge() {
	v.Bound("any issued challenge and any challenge in the client data of 0-5 bytes")
	p := v.TempPath("db.json")
	db := stickDB(p, mkStick(0, "credA"))
	a := genuine(0, "credA")
	a.challenge = v.Str("challenge", textCls, 0, 1, 4, 5)
	issued := v.Str("issued", "print", 0, 1, 4, 5)
	v.Assert(v.Iff(assertAs(db, "bob", b64(a.doc()), issued), a.challenge == issued), "the challenge must be the one issued")
}

// C11_tokens: several tokens, users and signing keys.
func C11_tokens() {
	v.Bound("two security keys and a TOTP token with arbitrary enabled flags, types and 1-byte credential IDs, another user's key; assertions naming any 1-byte ID, signed by any of three keys, for either relying party, presented for bob, his address, alice or nobody")
	p := v.TempPath("db.json")
	t1, t2 := mkStick(0, ""), mkStick(1, "")
	t1.ID, t1.Secret, t1.Comment = "1", "1", "1"
	id1, id2 := v.Str("id1", "alpha", 1), v.Str("id2", "alpha", 1)
	v.Assume(v.And(id1 != id2, id1 != "C", id2 != "C"))
	t1.Parameters["u2f_id"], t2.Parameters["u2f_id"] = id1, id2
	t1.Disabled, t2.Disabled = v.Bool("dis1"), v.Bool("dis2")
	if v.Choose("type", 2) == 1 {
		t1.Type = v.Pick("kind", "totp", "", "U2F")
	}
	bob, alice := mkUser(0, "bob", v.Hash("Secret-bob"), "bob@x.io"), mkUser(1, "alice", v.Hash("Secret-alice"), "alice@x.io")
	totp := mkTok("t", "secret", "phone")
	totp.Parameters = map[string]string{"u2f_id": "T"}
	bob.MfaTokens = []*identity.MfaToken{t1, totp, t2}
	alice.MfaTokens = []*identity.MfaToken{mkStick(2, "C")}
	db := mkDB(p, bob, alice)
	by := v.Choose("key", 3)
	rp := v.Choose("rp", 3)
	id := v.Str("id", "alpha", 1)
	a := genuine(by, id)
	a.rp = rpHash(rp)
	who := v.Pick("who", "bob", "bob@x.io", "alice", "carol")
	own := false
	switch who {
	case "bob", "bob@x.io":
		own = v.Or(v.And(id == id1, v.Not(t1.Disabled), t1.Type == "u2f", by == 0), v.And(id == id2, v.Not(t2.Disabled), by == 1))
	case "alice":
		own = v.And(id == "C", by == 2)
	}
	v.Assert(v.Iff(assertAs(db, who, b64(a.doc()), "issued"), v.And(own, by == rp)), "accepted exactly for an enabled token of the user, its relying party and its key")
}

// C11_signature: signatures over other data.
func C11_signature() {
	v.Bound("signatures over other authenticator data, other client data, either alone, both in another order, with one byte changed, cut short, absent, and any text of 1-4 bytes")
	p := v.TempPath("db.json")
	db := stickDB(p, mkStick(0, "credA"))
	a := genuine(0, "credA")
	switch v.Choose("how", 10) {
	case 0:
		o := genuine(0, "credA")
		o.rest = v.Bytes("rest", 4)
		v.Assume(string(o.rest) != string(a.rest))
		a.sign = func(auth []byte, client string) []byte { return signed(0, o.auth(), client) }
	case 1:
		o := genuine(0, "credA")
		o.challenge = v.Str("other", textCls, 6)
		v.Assume(o.challenge != "issued")
		a.sign = func(auth []byte, client string) []byte { return signed(0, auth, o.client()) }
	case 2:
		a.sign = func(auth []byte, client string) []byte { return v.Sign(0, auth) }
	case 3:
		a.sign = func(auth []byte, client string) []byte { return v.Sign(0, []byte(client)) }
	case 4:
		a.sign = func(auth []byte, client string) []byte {
			h := sha256.Sum256([]byte(client))
			return v.Sign(0, append(append([]byte(nil), h[:]...), auth...))
		}
	case 5:
		i := []int{0, 3, 10, 40}[v.Choose("at", 4)]
		d := v.Byte("xor")
		v.Assume(d != 0)
		a.sign = func(auth []byte, client string) []byte {
			s := append([]byte(nil), signed(0, auth, client)...)
			s[i] ^= d
			return s
		}
	case 6:
		a.sign = func(auth []byte, client string) []byte { s := signed(0, auth, client); return s[:len(s)-1] }
	case 7:
		a.sign = func(auth []byte, client string) []byte { return nil }
	case 8:
		s := v.Bytes("sig", 1+v.Choose("n", 4))
		a.sign = func(auth []byte, client string) []byte { return s }
	case 9:
		a.sign = func(auth []byte, client string) []byte {
			return v.Sign(0, append(append([]byte(nil), auth...), client...))
		}
	}
	v.Assert(v.Not(assertAs(db, "bob", b64(a.doc()), "issued")), "only a signature over the authenticator data and the client-data hash is accepted")
}

// C11_malformed: documents which are no assertion at all.
func C11_malformed() {
	v.Bound("payloads, client data, authenticator data and signatures which are empty, blank, no base64, no JSON, of other JSON types or too short, with decoded forms supplied alongside; IDs of other JSON types")
	p := v.TempPath("db.json")
	db := stickDB(p, mkStick(0, "credA"))
	a := genuine(0, "credA")
	auth, client := a.auth(), a.client()
	sig := signed(0, auth, client)
	A, C, S := b64b(auth), b64(client), b64b(sig)
	id := `"credA"`
	spoof := ""
	if v.Choose("spoof", 2) == 1 {
		spoof = `,"auth_data":{"rpIdHash":"` + hex.EncodeToString(rpHash(0)) + `","flags":{"UP":true}},"client_data":{"type":"webauthn.get","challenge":"issued"},"signature":"` + S + `"`
	}
	enc := ""
	want := false
	switch v.Choose("part", 8) {
	case 0:
		l := []string{"", " ", "\\n", "A", "!!!!", "AAAA", b64b(auth[:36]), b64b(auth[:1]), b64b(auth[:32]), A[:len(A)-1], "null"}
		enc = b64(assertDoc(id, l[v.Choose("auth", len(l))], C, S, spoof))
	case 1:
		sc := func(s string) (string, string) { return b64(s), b64b(signed(0, auth, s)) }
		l := []string{"", "null", "{}", "[]", "1", `"x"`, "true", "{", client[:len(client)-1], client + "x", `{"type":1}`, `{"type":"webauthn.get","challenge":1}`, `{"type":"webauthn.get","challenge":"issued","crossOrigin":"false"}`, `{"challenge":"issued"}`, `{"type":"webauthn.get"}`, `{"type":"webauthn.create","challenge":"issued"}`}
		c, s := sc(l[v.Choose("client", len(l))])
		enc = b64(assertDoc(id, A, c, s, spoof))
	case 2:
		l := []string{"", " ", "A", "!!!!", C[:len(C)-1], C + "="}
		enc = b64(assertDoc(id, A, l[v.Choose("clienttext", len(l))], S, spoof))
	case 3:
		l := []string{"", " ", "\\t\\n", "A", "!!!!", "AAAA", S[:len(S)-1]}
		enc = b64(assertDoc(id, A, C, l[v.Choose("sig", len(l))], spoof))
	case 4:
		l := []string{`""`, "null", "1", "true", "[]", "{}", `["credA"]`, `"credA "`, `"CREDA"`}
		enc = b64(assertDoc(l[v.Choose("id", len(l))], A, C, S, spoof))
	case 5:
		l := []string{"null", "1", "[]", "{}", `"x"`, "", " ", "{", "true", "[" + assertDoc(id, A, C, S, "") + "]"}
		enc = b64(l[v.Choose("doc", len(l))])
	case 6:
		d := b64(assertDoc(id, A, C, S, spoof))
		l := []string{" ", "!", "A", d[:len(d)-1], d + "A", "=" + d, assertDoc(id, A, C, S, "")}
		enc = l[v.Choose("payload", len(l))]
	case 7:
		enc = b64(assertDoc(id, A, C, S, spoof))
		want = true
	}
	v.Assert(assertAs(db, "bob", enc, "issued") == want, "malformed assertions are refused")
}

// C11_stored: tokens whose stored parameters are broken.
func C11_stored() {
	v.Bound("stored tokens with each parameter absent, empty, or of another value; keys off the curve, of 0, 31 and 33 bytes, and no base64")
	p := v.TempPath("db.json")
	t := mkStick(0, "credA")
	want := false
	switch v.Choose("what", 6) {
	case 0:
		k := v.Pick("gone", "u2f_id", "key_type", "key_algo", "curve_xcoord", "curve_ycoord", "rp_id_hash")
		delete(t.Parameters, k)
	case 1:
		k := v.Pick("empty", "u2f_id", "key_type", "key_algo", "curve_xcoord", "curve_ycoord", "rp_id_hash")
		t.Parameters[k] = ""
	case 2:
		k := v.Pick("other", "u2f_id", "key_type", "key_algo", "curve_xcoord", "curve_ycoord", "rp_id_hash")
		t.Parameters[k] = v.Pick("value", "EC2", "ES256", "rs256", "okp", "AAAA", b64b(make([]byte, 31)), b64b(make([]byte, 32)), b64b(make([]byte, 33)), b64b(v.KeyX(1)), "!")
	case 3:
		t.Parameters = nil
	case 4:
		k := v.Pick("unused", "u2f_type", "u2f_transports", "curve_type")
		delete(t.Parameters, k)
		want = true
	case 5:
		t.Parameters["curve_xcoord"], t.Parameters["curve_ycoord"] = t.Parameters["curve_ycoord"], t.Parameters["curve_xcoord"]
	}
	db := stickDB(p, t)
	v.Assert(assertAs(db, "bob", b64(genuine(0, "credA").doc()), "issued") == want, "broken tokens accept nothing")
	if id, ok := t.Parameters["u2f_id"]; !ok || id != "" {
		v.Assert(!assertAs(db, "bob", b64(genuine(0, "").doc()), "issued"), "an empty credential ID names no token")
	}
}

// C11_token: the token's own interface.
func C11_token() {
	v.Bound("WebAuthnRequest on tokens of every type with genuine and tampered assertions")
	t := mkStick(0, "credA")
	t.Type = v.Pick("type", "u2f", "totp", "", "U2F")
	a := genuine(0, "credA")
	want := t.Type == "u2f"
	switch v.Choose("how", 4) {
	case 1:
		a.flags = v.Byte("flags")
		want = v.And(want, a.flags&1 == 1)
	case 2:
		a.by = 1
		want = false
	case 3:
		a.id = "credB"
		want = false
	}
	r, err := t.WebAuthnRequest(b64(a.doc()))
	v.Assert(v.Iff(err == nil, want), "accepted exactly when genuine")
	if err == nil {
		v.Assert(v.And(r != nil, r.ID == "credA", r.ClientData.Challenge == "issued", r.ClientData.Origin == "https://x.io", r.AuthData.SignatureCounter == 9), "the parsed assertion is returned")
		f := r.AuthData.Flags
		b := a.flags
		v.Assert(v.And(v.Iff(f["UP"], b&1 != 0), v.Iff(f["UV"], b&4 != 0), v.Iff(f["AT"], b&64 != 0), v.Iff(f["ED"], b&128 != 0)), "its flags are those of the authenticator data")
	}
}
